//! C03: tempid resolution and entid allocation.
use crate::h::*;
use crate::model::*;
use crate::val::V;
use crate::world::World;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "(1) from every start state, every transaction of up to k terms of an alphabet of tempid terms is run on the real store; verdict, datoms, log, report and freshness of every new entid are compared with the declarative meaning (least fixpoint of identification); (2) every sequence up to a depth of allocating, failing, abandoned and metadata operations and reopenings, with the freshness of every entid handed out checked against everything ever used. Outcomes: distinct (state, verdict, report, delta)",
        bounds: "tempids x, y (z in pairs with retractions), identity attributes of type string, long (cardinality many) and ref; 2-3 existing entities; all transactions of <= 3 (quick) / 4 (thorough) of the 27 terms from 9 start states; allocation histories of 4 (quick) / 5 (thorough) of 10 operations",
        assumptions: vec!["entids of abandoned transactions may be handed out again (they were never committed)"],
    }
}

fn attrs() -> Vec<Attr> {
    vec![
        at("t/id", Vt::Str, false).uniq(Uniq::Identity),
        at("t/idm", Vt::Long, true).uniq(Uniq::Identity),
        at("t/rid", Vt::Ref, false).uniq(Uniq::Identity),
        at("t/uv", Vt::Long, false).uniq(Uniq::Value),
        at("t/r1", Vt::Ref, false),
        at("t/rm", Vt::Ref, true),
        at("t/l1", Vt::Long, false),
        at("t/cm", Vt::Ref, true).comp(),
    ]
}

fn resolution(ctx: &Ctx) {
    let (w0, es) = World::new(&attrs(), 2);
    let (id, idm, rid, r1, l1, uv) = (w0.a("t/id"), w0.a("t/idm"), w0.a("t/rid"), w0.a("t/r1"), w0.a("t/l1"), w0.a("t/uv"));
    let (e1, e2) = (es[0], es[1]);
    let add = |e: i64, a: i64, v: V| t(true, E::Id(e), a, X::Val(v));
    // Start states: which identities exist.
    let states: Vec<Vec<T>> = vec![
        vec![],
        vec![add(e1, id, V::s("a"))],
        vec![add(e1, id, V::s("a")), add(e2, id, V::s("b"))],
        vec![add(e1, id, V::s("a")), add(e1, idm, V::Long(1))],
        vec![add(e1, id, V::s("a")), add(e2, idm, V::Long(1))],
        vec![add(e1, id, V::s("a")), add(e2, rid, V::Ref(e1))],
        vec![add(e1, id, V::s("a")), add(e2, id, V::s("b")), add(e2, rid, V::Ref(e1)), add(e1, rid, V::Ref(e2))],
        vec![add(e1, idm, V::Long(1)), add(e1, idm, V::Long(2)), add(e1, rid, V::Ref(e1))],
        vec![add(e1, id, V::s("a")), add(e2, rid, V::Ref(e1)), add(e2, idm, V::Long(1)), add(e1, uv, V::Long(7)), add(e1, l1, V::Long(5))],
    ];
    let tmp = |s: &str| E::Tmp(s.into());
    let xt = |s: &str| X::Tmp(s.into());
    let mut al: Vec<T> = vec![];
    for x in ["x", "y"] {
        for v in ["a", "b"] {
            al.push(t(true, tmp(x), id, X::Val(V::s(v))));
        }
        for v in [1, 2] {
            al.push(t(true, tmp(x), idm, X::Val(V::Long(v))));
        }
        for y in ["x", "y", "z"] {
            al.push(t(true, tmp(x), rid, xt(y)));
        }
        al.push(t(true, tmp(x), rid, X::Val(V::Ref(e1))));
        al.push(t(true, tmp(x), l1, X::Val(V::Long(5))));
        al.push(t(true, tmp(x), uv, X::Val(V::Long(7))));
        al.push(t(false, tmp(x), l1, X::Val(V::Long(5))));
        al.push(t(false, tmp(x), id, X::Val(V::s("a"))));
    }
    al.push(t(true, tmp("x"), r1, xt("y")));
    al.push(t(true, tmp("z"), id, X::Val(V::s("a"))));
    al.push(t(true, tmp("z"), rid, xt("x")));
    al.push(t(true, E::Id(e1), rid, xt("y")));
    al.push(t(true, E::Id(e2), id, X::Val(V::s("a"))));
    al.push(t(false, E::Id(e1), r1, xt("x")));
    al.push(t(true, E::Look(id, V::s("a")), r1, xt("x")));
    ctx.note("alphabet", al.iter().map(|t| w0.m.term_edn(t)).collect::<Vec<_>>().join(" "));
    let txs = subsets(al.len(), if ctx.thorough { 4 } else { 3 });
    for (si, st) in states.iter().enumerate() {
        let mut w = w0.fork();
        if !st.is_empty() {
            let edn = w.m.tx_edn(st);
            if let Err(d) = w.step(st, &edn) {
                ctx.violation("C03/start", format!("start{}", si), d);
                return;
            }
        }
        ctx.state(1);
        crate::world::par(ctx, &w, txs.len(), |w, i| {
            let mut ts: Vec<T> = txs[i].iter().map(|i| al[*i].clone()).collect();
            if i % 2 == 1 {
                ts.reverse();
            }
            let edn = w.m.tx_edn(&ts);
            let case = format!("res|s{}|{:?}", si, txs[i]);
            if !ctx.want(&case) {
                return;
            }
            let mut f = w.fork();
            ctx.transition(1);
            match f.step(&ts, &edn) {
                Ok(acc) => {
                    ctx.trace(1);
                    ctx.count(if acc { "accepted" } else { "refused" }, 1);
                    ctx.outcome(&(si, acc, f.log.difference(&w.log).map(|l| (l.1, l.2, l.3.clone(), l.4)).filter(|l| l.1 != f.tx_instant).collect::<Vec<_>>()));
                    ctx.sample("resolution", || format!("{} --{}--> {}", w.m.tx_edn(st), edn, if acc { "accepted" } else { "refused" }));
                }
                Err(d) => ctx.violation(format!("C03/res/{}", hash(&case)), case, format!("start state {} {}\n{}", si, w.m.tx_edn(st), d)),
            }
        });
    }
}

/// Operations of the allocation histories.
const OPS: &[&str] = &[
    "add an entity",
    "add two entities",
    "add an entity only as a value",
    "add an entity only as a component value",
    "upsert an entity that exists",
    "retract what refers to the newest entity",
    "add and fail",
    "add and roll back",
    "define an attribute",
    "reopen",
];

fn allocation(ctx: &Ctx) {
    let depth = if ctx.thorough { 5 } else { 4 };
    let (w0, es) = World::new(&attrs(), 1);
    let e1 = es[0];
    let seqs: Vec<Vec<usize>> = sequences(OPS.len(), depth).collect();
    crate::world::par(ctx, &w0, seqs.len(), |base, i| {
        let seq = &seqs[i];
        let case = format!("alloc|{:?}", seq);
        if !ctx.want(&case) {
            return;
        }
        let mut w = base.fork();
        let (r1, rm, cm, l1, id) = (w.a("t/r1"), w.a("t/rm"), w.a("t/cm"), w.a("t/l1"), w.a("t/id"));
        let _ = r1;
        let tmp = |s: &str| E::Tmp(s.into());
        let mut hist = vec![];
        for (j, op) in seq.iter().enumerate() {
            hist.push(OPS[*op]);
            let r: Result<bool, String> = match op {
                0 => {
                    let ts = [t(true, tmp("x"), l1, X::Val(V::Long(j as i64)))];
                    let e = w.m.tx_edn(&ts);
                    w.step(&ts, &e)
                }
                1 => {
                    let ts = [t(true, tmp("x"), l1, X::Val(V::Long(j as i64))), t(true, tmp("y"), rm, X::Tmp("x".into()))];
                    let e = w.m.tx_edn(&ts);
                    w.step(&ts, &e)
                }
                2 => {
                    let ts = [t(true, E::Id(e1), rm, X::Tmp("x".into()))];
                    let e = w.m.tx_edn(&ts);
                    w.step(&ts, &e)
                }
                3 => {
                    let ts = [t(true, E::Id(e1), cm, X::Tmp("_1".into()))];
                    w.step(&ts, &format!("[{{:db/id {} :t/cm {{}}}}]", e1))
                }
                4 => {
                    let ts = [t(true, tmp("x"), id, X::Val(V::s("k"))), t(true, tmp("x"), rm, X::Tmp("x".into()))];
                    let e = w.m.tx_edn(&ts);
                    w.step(&ts, &e)
                }
                5 => {
                    let newest = w.m.datoms.iter().filter(|d| (d.0).1 == rm || (d.0).1 == cm).max_by_key(|d| *d.1).map(|d| d.0.clone());
                    match newest {
                        Some((e, a, v)) => {
                            let ts = [t(false, E::Id(e), a, X::Val(v))];
                            let e = w.m.tx_edn(&ts);
                            w.step(&ts, &e)
                        }
                        None => Ok(false),
                    }
                }
                6 => {
                    let ts = [t(true, tmp("x"), l1, X::Val(V::Long(1))), t(true, tmp("x"), l1, X::Val(V::Long(2)))];
                    let e = w.m.tx_edn(&ts);
                    w.step(&ts, &e)
                }
                7 => {
                    let before = (w.db.datoms(), w.db.log());
                    let r = (|| -> Result<(), String> {
                        let mut ip = w.db.conn.begin_transaction(&mut w.db.sql).map_err(|e| e.to_string())?;
                        ip.transact("[[:db/add \"x\" :t/l1 9] [:db/add \"y\" :t/rm \"x\"]]").map_err(|e| e.to_string())?;
                        ip.rollback().map_err(|e| e.to_string())
                    })();
                    match r {
                        Err(e) => Err(e),
                        Ok(()) if (w.db.datoms(), w.db.log()) != before => Err("rollback left a trace".into()),
                        Ok(()) => Ok(true),
                    }
                }
                8 => {
                    let ident: &'static str = ["t/n0", "t/n1", "t/n2", "t/n3", "t/n4", "t/n5"][j];
                    let r = w.db.transact(&format!("[{{:db/ident :{} :db/valueType :db.type/long :db/cardinality :db.cardinality/one}}]", ident));
                    let used: std::collections::BTreeSet<i64> = w.log.iter().flat_map(|l| std::iter::once(l.1).chain(if let V::Ref(r) = l.3 { Some(r) } else { None })).collect();
                    match r {
                        Err(e) => Err(e),
                        Ok(_) => {
                            let e = w.db.entid(ident);
                            w.m.datoms = w.db.datoms();
                            w.log = w.db.log();
                            if used.contains(&e) {
                                Err(format!("the new attribute {} was given entid {}, which was used before", ident, e))
                            } else {
                                Ok(true)
                            }
                        }
                    }
                }
                _ => match w.db.try_fork() {
                    Ok(db) => {
                        w.db = db;
                        Ok(true)
                    }
                    Err(e) => Err(format!("could not reopen: {}", e)),
                },
            };
            ctx.transition(1);
            match r {
                Ok(_) => {}
                Err(d) => {
                    ctx.violation(format!("C03/alloc/{}", hash(&format!("{:?}", &seq[..=j]))), case, format!("history: {}\n{}", hist.join(", "), d));
                    return;
                }
            }
        }
        ctx.trace(1);
        ctx.outcome(&("alloc", w.m.datoms.keys().map(|d| (d.0.min(0x10000000), d.1)).collect::<Vec<_>>()));
        ctx.sample("allocation", || hist.join(", "));
    });
}

pub fn run(ctx: &Ctx) {
    resolution(ctx);
    ctx.note("resolution_s", format!("{:.1}", ctx.elapsed()));
    allocation(ctx);
}
