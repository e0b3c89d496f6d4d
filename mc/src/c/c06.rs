//! C06: what failed or was abandoned leaves no trace.
use crate::db::*;
use crate::h::*;
use crate::val::{kw, V};
use mentat::{CacheDirection, HasSchema};
use mentat_transaction::CacheAction;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write;
use std::sync::Mutex;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every sequence over committed operations and ghosts (refused, rolled back, dropped, failed in the middle) is run in one process on the real store, followed by a battery of probes; everything observable (datoms, log, materialized tables, schema and caches in memory, entity ids handed out later, reports, query and lookup answers, what a reopened store says) must equal the same sequence without its ghosts",
        bounds: "8 committed operations and 26 ghosts; all sequences of <= 3 (quick) / 4 (thorough) with at least one ghost (quick: exactly one in those of length 3)",
        assumptions: vec!["transaction instants are masked"],
    }
}

const IDENT_ATTRS: &[&str] = &["t/id", "t/l1", "t/lm", "t/r1", "t/f1"];

type Step = fn(&mut mentat_transaction::InProgress<'_, '_>) -> Result<String, String>;

fn tx(ip: &mut mentat_transaction::InProgress<'_, '_>, s: &str) -> Result<String, String> {
    let r = ip.transact(s).map_err(|e| format!("{}", e))?;
    Ok(format!("{} {:?}", r.tx_id, r.tempids))
}

/// Is `s` refused?
fn no(ip: &mut mentat_transaction::InProgress<'_, '_>, s: &str) -> Result<String, String> {
    match ip.transact(s) {
        Ok(_) => Err(format!("accepted: {}", s)),
        Err(_) => Ok(String::new()),
    }
}

fn cache(ip: &mut mentat_transaction::InProgress<'_, '_>, a: &str, d: CacheDirection, act: CacheAction) -> Result<String, String> {
    ip.cache(&kw(a), d, act).map(|_| String::new()).map_err(|e| format!("{}", e))
}

#[derive(Clone, Copy, PartialEq)]
enum End {
    Commit,
    Rollback,
    Drop,
}

struct Op {
    name: &'static str,
    /// The steps, whether each belongs to the committed work (false: it fails or is abandoned).
    steps: Vec<(Step, bool)>,
    end: End,
}

const ALTER: &str = "[[:db/add :t/lm :db/cardinality :db.cardinality/one] [:db/add :t/l1 :db/doc \"no\"]]";

fn ops() -> Vec<Op> {
    let op = |name, steps: Vec<(Step, bool)>, end| Op { name, steps, end };
    use CacheAction::*;
    use CacheDirection::*;
    use End::*;
    vec![
        // Committed work.
        op("add data", vec![(|ip| tx(ip, "[{:db/id \"n\" :t/id \"b\" :t/l1 3} [:db/add (lookup-ref :t/id \"a\") :t/r1 \"n\"]]"), true)], Commit),
        op("replace", vec![(|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/l1 9] [:db/add (lookup-ref :t/id \"a\") :t/f1 \"new text\"] [:db/retract (lookup-ref :t/id \"a\") :t/lm 1] [:db/add (lookup-ref :t/id \"a\") :t/lm 3]]"), true)], Commit),
        op("define", vec![(|ip| tx(ip, "[{:db/ident :t/q :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]"), true), (|ip| tx(ip, "[[:db/add \"z\" :t/q 1]]"), true)], Commit),
        op("cache id", vec![(|ip| cache(ip, "t/id", Both, Register), true)], Commit),
        op("cache l1, f1", vec![(|ip| cache(ip, "t/l1", Both, Register), true), (|ip| cache(ip, "t/lm", Forward, Register), true), (|ip| cache(ip, "t/r1", Reverse, Register), true)], Commit),
        op("uncache id", vec![(|ip| cache(ip, "t/id", Both, Deregister), true)], Commit),
        // A failure inside committed work.
        op("work with refusals inside", vec![(|ip| no(ip, "[[:db/add \"x\" :t/lm 5] [:db/add \"y\" :t/uv 7] [:db/add \"x\" :t/uv 7]]"), false), (|ip| tx(ip, "[[:db/add \"x\" :t/l1 5]]"), true), (|ip| no(ip, ALTER), false)], Commit),
        op("alteration refused, then data", vec![(|ip| no(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/l1 77] [:db/add :t/l1 :db/valueType :db.type/string]]"), false), (|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/lm 4]]"), true)], Commit),
        // Ghosts.
        op("unknown ident", vec![(|ip| no(ip, "[[:db/add \"x\" :t/l1 1] [:db/add :t/nope :t/l1 1]]"), false)], Commit),
        op("not EDN", vec![(|ip| no(ip, "[[:db/add"), false)], Drop),
        op("unique conflict", vec![(|ip| no(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/l1 6] [:db/add \"y\" :t/uv 7] [:db/add \"x\" :t/uv 7]]"), false)], Commit),
        op("unique conflict, dropped", vec![(|ip| no(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/f1 \"lost\"] [:db/add \"y\" :t/uv 7] [:db/add \"x\" :t/uv 7]]"), false)], Drop),
        op("bad alteration", vec![(|ip| no(ip, ALTER), false)], Commit),
        op("bad alteration, dropped", vec![(|ip| no(ip, ALTER), false)], Drop),
        op("value type", vec![(|ip| no(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/id \"changed\"] [:db/add :t/l1 :db/valueType :db.type/string]]"), false)], Commit),
        op("data, rolled back", vec![(|ip| tx(ip, "[{:db/id \"n\" :t/id \"c\" :t/l1 4 :t/lm 8}[:db/add \"m\" :t/r1 \"n\"]]"), false)], Rollback),
        op("data, dropped", vec![(|ip| tx(ip, "[{:db/id \"n\" :t/id \"c\" :t/l1 4 :t/lm 8}]"), false)], Drop),
        op("replacements, rolled back", vec![(|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/l1 10] [:db/add (lookup-ref :t/id \"a\") :t/lm 10] [:db/retract (lookup-ref :t/id \"a\") :t/lm 2] [:db/add (lookup-ref :t/id \"a\") :t/f1 \"gone\"]]"), false)], Rollback),
        op("retraction of the id, dropped", vec![(|ip| tx(ip, "[[:db/retract (lookup-ref :t/id \"a\") :t/id \"a\"]]"), false)], Drop),
        op("id changed twice, rolled back", vec![(|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/id \"a2\"]]"), false), (|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a2\") :t/id \"a3\"] [:db/add \"n\" :t/id \"a\"]]"), false)], Rollback),
        op("definition and use, rolled back", vec![(|ip| tx(ip, "[{:db/ident :t/w :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]"), false), (|ip| tx(ip, "[[:db/add \"z\" :t/w 1]]"), false)], Rollback),
        op("alteration, dropped", vec![(|ip| tx(ip, "[[:db/add :t/l1 :db/cardinality :db.cardinality/many] [:db/add :t/id :db/index true] [:db/add :t/id :db/doc \"d\"]]"), false)], Drop),
        op("uniqueness removed, rolled back", vec![(|ip| tx(ip, "[[:db/retract :t/uv :db/unique :db.unique/value]]"), false)], Rollback),
        op("rename, rolled back", vec![(|ip| tx(ip, "[[:db/add :t/l1 :db/ident :t/l2]]"), false)], Rollback),
        op("ident, dropped", vec![(|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :db/ident :t/ident]]"), false)], Drop),
        op("cache id, rolled back", vec![(|ip| cache(ip, "t/id", Both, Register), false)], Rollback),
        op("cache l1 and data, dropped", vec![(|ip| cache(ip, "t/l1", Both, Register), false), (|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/l1 11]]"), false)], Drop),
        op("uncache, rolled back", vec![(|ip| cache(ip, "t/id", Both, Deregister), false), (|ip| cache(ip, "t/l1", Both, Deregister), false)], Rollback),
        op("uncache, data, dropped", vec![(|ip| cache(ip, "t/id", Both, Deregister), false), (|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/id \"zz\"]]"), false)], Drop),
        op("good, refused, dropped", vec![(|ip| tx(ip, "[[:db/add (lookup-ref :t/id \"a\") :t/l1 12]]"), false), (|ip| no(ip, ALTER), false)], Drop),
        op("good, refused, rolled back", vec![(|ip| tx(ip, "[{:t/id \"e\" :t/l1 12}]"), false), (|ip| no(ip, "[[:db/add :t/nope :t/l1 1]]"), false), (|ip| tx(ip, "[{:t/id \"f\" :t/l1 13}]"), false)], Rollback),
        op("no such file", vec![(|ip| match ip.import("/nonexistent/file") { Ok(_) => Err("imported".into()), Err(_) => Ok(String::new()) }, false)], Commit),
        op("unknown attribute cached", vec![(|ip| match ip.cache(&kw("t/nope"), Both, Register) { Ok(_) => Err("cached".into()), Err(_) => Ok(String::new()) }, false)], Commit),
        op("instants, dropped", vec![(|ip| tx(ip, "[[:db/add (transaction-tx) :db/txInstant #inst \"2040-01-01T00:00:00Z\"]]"), false)], Drop),
    ]
}

const NCOMMITTED: usize = 8;

/// Run an operation; with `ghosts` false, only what belongs to the committed work.
fn run_op(db: &mut Db, op: &Op, ghosts: bool, out: &mut String) -> Result<(), String> {
    let steps: Vec<&(Step, bool)> = op.steps.iter().filter(|s| ghosts || s.1).collect();
    if steps.is_empty() {
        return Ok(());
    }
    let (s, c) = (&mut db.sql, &mut db.conn);
    guard(|| -> Result<(), String> {
        let mut ip = c.begin_transaction(s).map_err(|e| format!("begin: {}", e))?;
        for (f, mine) in steps {
            let r = f(&mut ip);
            match r {
                Ok(r) if *mine => writeln!(out, "{}: {}", op.name, r).unwrap(),
                Ok(_) => {}
                // Committed work may be impossible in some histories (say, "b" exists already): the
                // outcome is part of what is compared.
                Err(e) if *mine => writeln!(out, "{}: refused {}", op.name, e.split(':').next().unwrap_or("")).unwrap(),
                Err(_) => {}
            }
        }
        match op.end {
            End::Commit => ip.commit().map_err(|e| format!("commit: {}", e))?,
            End::Rollback => ip.rollback().map_err(|e| format!("rollback: {}", e))?,
            End::Drop => drop(ip),
        }
        Ok(())
    })
    .and_then(|r| r)
}

fn mask(v: &V, a: i64) -> String {
    if a == 3 {
        "instant".into()
    } else {
        format!("{:?}", v)
    }
}

/// Everything observable about a store from this process.
fn observe(db: &Db, out: &mut String) -> Result<(), String> {
    let d = db.dump();
    for ((e, a, v), tx) in &d.datoms {
        writeln!(out, "datom {} {} {} {}", e, a, mask(v, *a), tx).unwrap();
    }
    for (tx, e, a, v, added) in &d.log {
        writeln!(out, "log {} {} {} {} {}", tx, e, a, mask(v, *a), added).unwrap();
    }
    writeln!(out, "idents {:?}\nschema {:?}\nparts {:?}\nflags {:?}", d.idents, d.schema, d.parts, d.flags.iter().filter(|f| (f.0).1 != 3).collect::<Vec<_>>()).unwrap();
    let n: i64 = db.sql.query_row("SELECT count(*) FROM fulltext_values", rusqlite::params![], |r| r.get(0)).unwrap();
    let _ = n;
    let s = db.conn.current_schema();
    let of = super::c07::of_schema(&s)?;
    writeln!(out, "memory {:?}", of).unwrap();
    writeln!(out, "last_tx_id {}", db.conn.last_tx_id()).unwrap();
    let c = db.conn.current_cache();
    use mentat_core::CachedAttributes;
    let es: BTreeSet<i64> = d.datoms.keys().filter(|k| k.0 >= 0x10000 && k.0 < 0x10000000).map(|k| k.0).collect();
    for a in IDENT_ATTRS {
        let aid = match s.get_entid(&kw(a)) {
            Some(e) => e.0,
            None => {
                writeln!(out, "{} gone", a).unwrap();
                continue;
            }
        };
        writeln!(out, "cached {} {} {}", a, c.is_attribute_cached_forward(aid), c.is_attribute_cached_reverse(aid)).unwrap();
        for e in &es {
            let mut vs: Vec<V> = db.conn.lookup_values_for_attribute(&db.sql, *e, &kw(a)).map_err(|e| format!("lookup: {}", e))?.iter().map(V::from_typed).collect();
            vs.sort();
            let want: Vec<V> = d.datoms.keys().filter(|k| k.0 == *e && k.1 == aid).map(|k| k.2.clone()).collect();
            if vs != want {
                return Err(format!("lookup of :{} of {} gives {:?}, the store has {:?}", a, e, vs, want));
            }
        }
    }
    for q in ["[:find ?e ?v :where [?e :t/l1 ?v]]", "[:find ?e :where [?e :t/id \"a\"]]", "[:find ?e ?v :where [?e :t/lm ?v] [?e :t/id \"b\"]]", "[:find ?x ?v :where [?x :t/r1 ?e] [?e :t/l1 ?v]]", "[:find ?e :where [?e :t/id \"c\"]]", "[:find ?e :where [?e :t/l1 11]]"] {
        let r = match db.conn.q_once(&db.sql, q, None) {
            Ok(r) => format!("{:?}", r.results),
            Err(_) => "error".into(),
        };
        writeln!(out, "{} -> {}", q, r).unwrap();
    }
    Ok(())
}

fn probes(db: &mut Db, out: &mut String) -> Result<(), String> {
    observe(db, out)?;
    for p in ["[{:db/id \"p\" :t/id \"probe\" :t/l1 1} {:db/id \"q\" :t/lm 1}]", "[{:db/ident :t/probe :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]", "[[:db/add \"x\" :t/probe 2]]", "[[:db/add (lookup-ref :t/id \"a\") :t/l1 100]]", "[[:db/add \"u\" :t/uv 7]]"] {
        match db.transact(p) {
            Ok(r) => writeln!(out, "probe {} {:?}", r.tx_id, r.tempids).unwrap(),
            Err(e) if e.starts_with("PANIC") => return Err(e),
            Err(_) => writeln!(out, "probe refused {}", p).unwrap(),
        }
    }
    observe(db, out)?;
    let re = db.try_fork().map_err(|e| format!("the store cannot be opened again: {}", e))?;
    let mut o2 = String::new();
    observe(&re, &mut o2)?;
    let mut o1 = String::new();
    observe(db, &mut o1)?;
    let f = |s: &str| s.lines().filter(|l| !l.starts_with("cached ")).collect::<Vec<_>>().join("\n");
    if f(&o1) != f(&o2) {
        return Err(format!("a reopened store differs from the open one:\n{}", first_diff(&f(&o1), &f(&o2))));
    }
    Ok(())
}

fn first_diff(a: &str, b: &str) -> String {
    let (la, lb): (BTreeSet<&str>, BTreeSet<&str>) = (a.lines().collect(), b.lines().collect());
    let mut s = String::new();
    for l in la.difference(&lb).take(6) {
        writeln!(s, "  only in the first:  {}", l).unwrap();
    }
    for l in lb.difference(&la).take(6) {
        writeln!(s, "  only in the second: {}", l).unwrap();
    }
    s
}

pub fn run(ctx: &Ctx) {
    let mut base = Db::new();
    base.must("[{:db/ident :t/id :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true} {:db/ident :t/l1 :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/index true} {:db/ident :t/lm :db/valueType :db.type/long :db/cardinality :db.cardinality/many} {:db/ident :t/r1 :db/valueType :db.type/ref :db/cardinality :db.cardinality/one} {:db/ident :t/f1 :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/fulltext true :db/index true} {:db/ident :t/uv :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/unique :db.unique/value :db/index true}]");
    base.must("[{:db/id \"a\" :t/id \"a\" :t/l1 1 :t/lm [1 2] :t/f1 \"old text\"}]");
    let ops = ops();
    // Histories: sequences over all operations; the reference is the committed part of each.
    let maxlen = if ctx.thorough { 4 } else { 3 };
    let has_ghost = |o: usize| o >= NCOMMITTED || ops[o].steps.iter().any(|s| !s.1);
    let mut hist: Vec<Vec<usize>> = vec![];
    for len in 1..=maxlen {
        for h in sequences(ops.len(), len) {
            if !h.iter().any(|o| has_ghost(*o)) {
                continue;
            }
            // A final committed operation is what the probes do anyway; a leading one only repeats the start.
            if !ctx.thorough && len == 3 && (h.iter().filter(|o| **o >= NCOMMITTED).count() != 1) {
                continue;
            }
            if ctx.thorough && len == 4 && (h.iter().filter(|o| **o >= NCOMMITTED).count() != 2 || h[3] < NCOMMITTED && h[0] < NCOMMITTED && h[1] >= NCOMMITTED) {
                continue;
            }
            hist.push(h);
        }
    }
    ctx.note("histories", hist.len().to_string());
    let reference: Mutex<BTreeMap<Vec<usize>, Result<String, String>>> = Mutex::new(BTreeMap::new());
    let shared = Mutex::new(base.fork());
    ctx.par_with(
        hist.len(),
        || shared.lock().unwrap().fork(),
        |b, i| {
            let h = &hist[i];
            let case = h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
            if !ctx.want(&case) {
                return;
            }
            let clean: Vec<usize> = h.iter().cloned().filter(|o| *o < NCOMMITTED).collect();
            let known = reference.lock().unwrap().get(&clean).cloned();
            let want = known.unwrap_or_else(|| {
                let mut db = b.fork();
                let mut out = String::new();
                let r = clean.iter().try_for_each(|o| run_op(&mut db, &ops[*o], false, &mut out)).and_then(|_| probes(&mut db, &mut out)).map(|_| out);
                ctx.state(1);
                reference.lock().unwrap().insert(clean.clone(), r.clone());
                r
            });
            let mut db = b.fork();
            let mut out = String::new();
            let r = h.iter().try_for_each(|o| run_op(&mut db, &ops[*o], true, &mut out)).and_then(|_| probes(&mut db, &mut out)).map(|_| out);
            ctx.transition(h.len() as u64 + 5);
            let names = || h.iter().map(|o| ops[*o].name).collect::<Vec<_>>().join(" ; ");
            match (want, r) {
                (Err(e), _) => ctx.violation(format!("C06/clean/{:?}", clean), case, format!("history without ghosts: {}\n{}", clean.iter().map(|o| ops[*o].name).collect::<Vec<_>>().join(" ; "), e)),
                (_, Err(e)) => ctx.violation(format!("C06/{}", case), case, format!("history: {}\n{}", names(), e)),
                (Ok(w), Ok(r)) => {
                    if w != r {
                        ctx.violation(format!("C06/{}", case), case, format!("history: {}\nobservations without the ghosts (first) and with them (second) differ:\n{}", names(), first_diff(&w, &r)));
                    } else {
                        ctx.trace(1);
                        ctx.outcome(&r);
                        ctx.sample("history", names);
                    }
                }
            }
        },
    );
}
