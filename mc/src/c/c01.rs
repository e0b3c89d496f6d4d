//! C01: what a transaction does to the current datoms.
use crate::h::*;
use crate::model::*;
use crate::val::V;
use crate::world::World;
use std::collections::{BTreeMap, VecDeque};

fn uuid(n: u8) -> V {
    // They differ in the last byte only.
    let mut b = [7; 16];
    b[15] = n;
    V::Uuid(b)
}

/// One attribute of every kind, with two values of its domain that are easily mistaken for one another. Ref values are filled in with the entities.
pub fn kinds() -> Vec<(Attr, Vec<V>)> {
    let l = |x| V::Long(x);
    let s = |x: &str| V::s(x);
    vec![
        (at("t/l1", Vt::Long, false), vec![l(9_007_199_254_740_992), l(9_007_199_254_740_993)]),
        (at("t/lm", Vt::Long, true), vec![l(1), l(2)]),
        (at("t/s1", Vt::Str, false), vec![s("a"), s("A")]),
        (at("t/sm", Vt::Str, true), vec![s("a"), s("a ")]),
        (at("t/r1", Vt::Ref, false), vec![]),
        (at("t/rm", Vt::Ref, true), vec![]),
        (at("t/cm", Vt::Ref, true).comp(), vec![]),
        (at("t/b1", Vt::Bool, false), vec![V::Bool(true), V::Bool(false)]),
        (at("t/d1", Vt::Dbl, false), vec![V::dbl(1.5), V::dbl(1.5000000000000002)]),
        (at("t/dm", Vt::Dbl, true), vec![V::dbl(1.5), V::dbl(2.0)]),
        (at("t/i1", Vt::Inst, false), vec![V::Inst(1_500_000_000_123_455), V::Inst(1_500_000_000_123_456)]),
        (at("t/k1", Vt::Kw, false), vec![V::kw("x/a"), V::kw("x/A")]),
        (at("t/km", Vt::Kw, true), vec![V::kw("x/a"), V::kw("y/a")]),
        (at("t/u1", Vt::Uuid, false), vec![uuid(1), uuid(2)]),
        (at("t/um", Vt::Uuid, true), vec![uuid(1), uuid(2)]),
        (at("t/f1", Vt::Str, false).fts(), vec![s("Hello world"), s("hello world")]),
        (at("t/fm", Vt::Str, true).fts(), vec![s("hello world"), s("hello, world")]),
        (at("t/id", Vt::Str, false).uniq(Uniq::Identity), vec![s("a"), s("A")]),
        (at("t/idm", Vt::Str, true).uniq(Uniq::Identity), vec![s("a"), s("b")]),
        (at("t/uv", Vt::Long, false).uniq(Uniq::Value), vec![l(1), l(2)]),
        (at("t/uvm", Vt::Long, true).uniq(Uniq::Value), vec![l(1), l(2)]),
        (at("t/ridx", Vt::Ref, false).uniq(Uniq::Identity), vec![]),
        (at("t/ix", Vt::Long, true).idx(), vec![l(1), l(2)]),
    ]
}

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "breadth-first search over every reachable set of datoms of a small domain; from every state every transaction (set of terms) within the bound is run on the real store and its verdict, datoms, log rows and report are compared with the reference model; outcomes counted as distinct (attribute kind, state, verdict, delta) tuples",
        bounds: "2 entities x 2 values per attribute kind (23 kinds: every value type, cardinality, unique, indexed, fulltext, component): all reachable states x all subsets of the 8 add/retract terms (every transaction over the domain); pairs of attributes: all reachable states x all transactions of at most 2 (quick) / 3 (thorough) of the 16 terms; batch sizes at SQLite's variable limit",
        assumptions: vec!["values outside the two per type are covered by C22; SQLite itself is trusted"],
    }
}

type Key = Vec<(i64, i64, V)>;

/// BFS over datom states of `which` attributes with all transactions of at most `maxk` terms.
fn sweep(ctx: &Ctx, ks: &[(Attr, Vec<V>)], maxk: usize, part: usize, parts: usize, tag: &str) {
    let attrs: Vec<Attr> = ks.iter().map(|k| k.0.clone()).collect();
    let (w0, es) = World::new(&attrs, 2);
    let mut terms: Vec<T> = vec![];
    for (attr, vals) in ks {
        let a = w0.a(attr.name);
        let vals: Vec<V> = if attr.vt == Vt::Ref { es.iter().map(|e| V::Ref(*e)).collect() } else { vals.clone() };
        for add in &[true, false] {
            for e in &es {
                for v in &vals {
                    terms.push(t(*add, E::Id(*e), a, X::Val(v.clone())));
                }
            }
        }
    }
    let mine: Vec<i64> = ks.iter().map(|k| w0.a(k.0.name)).collect();
    let key = |w: &World| -> Key { w.m.datoms.keys().filter(|d| mine.contains(&d.1)).cloned().collect() };
    let txs = subsets(terms.len(), maxk);
    let mut seen: BTreeMap<Key, Vec<String>> = BTreeMap::new();
    let mut q: VecDeque<World> = VecDeque::new();
    seen.insert(key(&w0), vec![]);
    q.push_back(w0);
    let mut nstates = 0u64;
    while let Some(w) = q.pop_front() {
        if ctx.too_many() {
            return;
        }
        let k0 = key(&w);
        let path = seen[&k0].clone();
        let mine_state = nstates as usize % parts == part;
        nstates += 1;
        for sub in &txs {
            // The part that does not own this state still needs its successors (single terms reach all).
            if !mine_state && sub.len() > 1 {
                continue;
            }
            let ts: Vec<T> = sub.iter().map(|i| terms[*i].clone()).collect();
            // Does this transaction lead somewhere new? Let the real store decide, in a fork.
            let case = format!("{}|{:?}|{:?}", tag, k0, sub);
            if !ctx.want(&case) && sub.len() != 1 {
                continue;
            }
            let mut f = w.fork();
            // Alternate term order between transactions: a transaction is a set.
            let mut ord = ts.clone();
            if sub.iter().sum::<usize>() % 2 == 1 {
                ord.reverse();
            }
            f.db.limit(sub.iter().sum::<usize>() / 2 % 2 == 1);
            let edn = f.m.tx_edn(&ord);
            let r = f.step(&ord, &edn);
            if mine_state {
                ctx.transition(1);
            }
            match r {
                Err(d) => {
                    ctx.violation(format!("C01/{}/{}", tag, hash(&case)), case, format!("history: {}\nfailing transaction: {}\n{}", path.join(" ; "), edn, d));
                }
                Ok(acc) => {
                    if mine_state {
                        ctx.trace(1);
                        let k = key(&f);
                        ctx.outcome(&(tag, &k0, acc, &k));
                        ctx.sample(tag, || format!("{:?} --{}--> {}", k0, edn, if acc { format!("{:?}", k) } else { "refused".into() }));
                    }
                    if acc {
                        let k = key(&f);
                        if !seen.contains_key(&k) {
                            let mut p = path.clone();
                            p.push(edn.clone());
                            seen.insert(k, p);
                            q.push_back(f);
                        }
                    }
                }
            }
        }
    }
    if part == 0 {
        ctx.state(nstates);
    }
}

fn batch_sizes(ctx: &Ctx) {
    // The transactor works in chunks of SQLite's variable limit / 6; the sizes around the boundary
    // and around two chunks, for each of the four ways terms are written.
    let c = 32766 / 6;
    let sizes = if ctx.thorough { vec![1, 999 / 6, c - 2, c - 1, c, c + 1, 2 * c - 1, 2 * c, 2 * c + 1] } else { vec![c - 2, c - 1, c, c + 1] };
    let names = ["t/l1", "t/lm", "t/f1", "t/fm"];
    let jobs: Vec<(usize, &str, usize)> = sizes.iter().flat_map(|s| names.iter().flat_map(move |n| vec![(*s, *n, 0), (*s, *n, 1)])).collect();
    ctx.par(jobs.len(), |i| {
        let (size, name, mode) = jobs[i];
        let case = format!("batch|{}|{}|{}", name, size, mode);
        if !ctx.want(&case) {
            return;
        }
        let (mut w, _) = World::new(&kinds().into_iter().map(|k| k.0).filter(|a| a.name == name).collect::<Vec<_>>(), 0);
        let a = w.a(name);
        let ft = w.m.attr(a).vt == Vt::Str;
        // mode 0: every datom has its own value; mode 1: two values shared by all.
        let val = |i: usize| -> V {
            let x = if mode == 0 { i } else { i % 2 };
            if ft { V::s(&format!("v{}", x)) } else { V::Long(x as i64) }
        };
        let edn: String = format!("[{}]", (0..size).map(|i| format!("[:db/add \"e{}\" :{} {}]", i, name, val(i).edn())).collect::<String>());
        ctx.transition(1);
        match w.db.transact(&edn) {
            Err(e) => ctx.violation(format!("C01/batch/{}", case), case, format!("a transaction of {} datoms of {} was refused: {}", size, name, e)),
            Ok(r) => {
                let d = w.db.datoms();
                let mut want = w.m.datoms.clone();
                for i in 0..size {
                    want.insert((r.tempids[&format!("e{}", i)], a, val(i)), r.tx_id);
                }
                let mut d2 = d.clone();
                d2.retain(|k, _| !(k.0 == r.tx_id));
                if d2 != want {
                    ctx.violation(format!("C01/batch/{}", case), case, format!("a transaction of {} datoms of {}: datoms differ from what was asserted: {}", size, name, crate::world::diff(&want, &d2).chars().take(600).collect::<String>()));
                } else {
                    ctx.trace(1);
                    ctx.outcome(&case);
                }
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    let ks = kinds();
    // Single attributes, complete: all states x all subsets of the 8 terms.
    let parts = 4;
    let maxk = 8;
    let mut jobs: Vec<(Vec<(Attr, Vec<V>)>, usize, usize, usize, String)> = vec![];
    for k in &ks {
        // Quick: the complete power set for a representative of each storage path, up to 3 terms otherwise.
        let full = ctx.thorough || ["t/l1", "t/lm", "t/rm", "t/f1", "t/fm", "t/id", "t/uvm"].contains(&k.0.name);
        let p = if full { parts } else { 1 };
        for part in 0..p {
            jobs.push((vec![k.clone()], if full { maxk } else { 3 }, part, p, format!("one|{}", k.0.name)));
        }
    }
    let find = |n: &str| ks.iter().find(|k| k.0.name == n).unwrap().clone();
    let pairs: Vec<(&str, &str)> = vec![("t/l1", "t/lm"), ("t/id", "t/uvm"), ("t/f1", "t/s1"), ("t/r1", "t/cm")];
    for (x, y) in pairs {
        let p = if ctx.thorough { 16 } else { 4 };
        for part in 0..p {
            jobs.push((vec![find(x), find(y)], if ctx.thorough { 3 } else { 2 }, part, p, format!("two|{}|{}", x, y)));
        }
    }
    // Longest first.
    jobs.reverse();
    ctx.par(jobs.len(), |i| {
        let (ks, maxk, part, parts, tag) = &jobs[i];
        sweep(ctx, ks, *maxk, *part, *parts, tag);
    });
    ctx.note("sweep_s", format!("{:.1}", ctx.elapsed()));
    batch_sizes(ctx);
}
