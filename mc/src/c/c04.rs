//! C04: every transaction is either legal and takes effect or is refused; no state violates its schema.
use crate::db::Db;
use crate::explore::*;
use crate::h::*;
use crate::model::*;
use crate::val::V;
use crate::world::World;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "(1) type table: every literal x every attribute kind x {add, retract, map notation, lookup ref} from an empty and a populated state; (2) breadth-first search: in every reachable state every transaction of one or two terms over legal, unallocated, unknown and contradictory entities, attributes and values; after every transaction the verdict, datoms, log and report equal the reference model's and the schema's invariants are evaluated on the datoms independently of the model",
        bounds: "23 attribute kinds x 46 literals; 8 entity places x 17 attribute/value places x 2 operations; states reachable by 1 (quick) / 2 (thorough) single terms before the pairs",
        assumptions: vec!["values that are accepted but change when stored are C22's subject"],
    }
}

enum Lit {
    V(V),
    None,
}

fn literals() -> Vec<(&'static str, Lit)> {
    let v = |s: &'static str, x: V| (s, Lit::V(x));
    let n = |s: &'static str| (s, Lit::None);
    vec![
        v("5", V::Long(5)),
        v("-5", V::Long(-5)),
        v("+5", V::Long(5)),
        v("0", V::Long(0)),
        v("1", V::Long(1)),
        v("0x10", V::Long(16)),
        v("010", V::Long(8)),
        v("2r101", V::Long(5)),
        v("9223372036854775807", V::Long(i64::MAX)),
        v("-9223372036854775808", V::Long(i64::MIN)),
        v("1.5", V::dbl(1.5)),
        v("5.0", V::dbl(5.0)),
        v("-0.0", V::dbl(-0.0)),
        v("1e300", V::dbl(1e300)),
        v("1.0e-5", V::dbl(1e-5)),
        v("true", V::Bool(true)),
        v("false", V::Bool(false)),
        v("\"true\"", V::s("true")),
        v("\"a\"", V::s("a")),
        v("\"\"", V::s("")),
        v("\"5\"", V::s("5")),
        v("\":x/a\"", V::s(":x/a")),
        v(":x/a", V::kw("x/a")),
        v(":t/ent", V::kw("t/ent")),
        v(":db/ident", V::kw("db/ident")),
        v("#inst \"2017-01-01T00:00:00Z\"", V::Inst(1483228800000000)),
        v("#inst \"2017-01-01T00:00:00.123456Z\"", V::Inst(1483228800123456)),
        v("#inst \"1960-01-01T00:00:00.5Z\"", V::Inst(-315619199500000)),
        v("#inst \"2017-01-01T01:00:00+01:00\"", V::Inst(1483228800000000)),
        v("#uuid \"4cb3f828-752d-497a-90c9-b1fd516d5644\"", V::Uuid(*uuid::Uuid::parse_str("4cb3f828-752d-497a-90c9-b1fd516d5644").unwrap().as_bytes())),
        n("nil"),
        n("5N"),
        n("sym"),
        n("x/sym"),
        n("#{1}"),
        n("#{\"a\"}"),
        n("(foo)"),
        n("(transaction-instant)"),
        n("(1 2)"),
        n("#f NaN"),
        n("{1 2}"),
        // References.
        v("65536", V::Long(65536)),
        v("99999", V::Long(99999)),
        v("268435456", V::Long(268435456)),
        v("1000", V::Long(1000)),
        v("536870912", V::Long(536870912)),
    ]
}

/// The schema's invariants, evaluated on the datoms alone.
pub fn invariants(w: &World) -> Result<(), String> {
    let ds = w.db.datoms();
    let mut idents = std::collections::BTreeMap::new();
    let all: Vec<_> = ds.keys().collect();
    for d in &all {
        if let V::Bad(b) = &d.2 {
            return Err(format!("unreadable datom {:?}: {}", d, b));
        }
        if d.1 == 1 && idents.insert(d.2.clone(), d.0).is_some() {
            return Err(format!("ident {:?} names two entities", d.2));
        }
        if let Some(a) = w.m.attrs.get(&d.1) {
            if Vt::of(&d.2) != Some(a.vt) {
                return Err(format!("datom {:?} has the wrong type for :{}", d, a.name));
            }
            for o in &all {
                if o.1 == d.1 && o.0 == d.0 && o.2 != d.2 && !a.many {
                    return Err(format!("two values of :{} for one entity: {:?} {:?}", a.name, d, o));
                }
                if o.1 == d.1 && o.0 != d.0 && o.2 == d.2 && a.uniq != Uniq::No {
                    return Err(format!("value of unique :{} on two entities: {:?} {:?}", a.name, d, o));
                }
            }
        }
    }
    Ok(())
}

fn allocated(db: &Db, e: i64) -> bool {
    db.dump().parts.iter().any(|(p, start, idx)| (if p == ":db.part/db" { 0 } else { *start }) <= e && e < *idx)
}

/// What a literal means as a value of this attribute.
fn meaning(w: &World, a: &Attr, lit: &Lit) -> Result<X, Reject> {
    let v = match lit {
        Lit::V(v) => v,
        Lit::None => return Err(Reject::Type),
    };
    match (a.vt, v) {
        (Vt::Ref, V::Long(n)) => {
            if allocated(&w.db, *n) {
                Ok(X::Val(V::Ref(*n)))
            } else {
                Err(Reject::Unknown)
            }
        }
        (Vt::Ref, V::Kw(k)) => {
            use mentat::HasSchema;
            match w.db.conn.current_schema().get_entid(&crate::val::kw(k)) {
                Some(e) => Ok(X::Val(V::Ref(e.into()))),
                None => Err(Reject::Unknown),
            }
        }
        (Vt::Ref, V::Str(s)) => Ok(X::Tmp(s.clone())),
        (vt, v) if Vt::of(v) == Some(vt) => Ok(X::Val(v.clone())),
        _ => Err(Reject::Type),
    }
}

fn type_table(ctx: &Ctx) {
    let ks = super::c01::kinds();
    let attrs: Vec<Attr> = ks.iter().map(|k| k.0.clone()).collect();
    let (mut w0, es) = World::new(&attrs, 2);
    w0.db.must("[[:db/add \"e\" :db/ident :t/ent]]");
    w0.m.datoms = w0.db.datoms();
    w0.log = w0.db.log();
    let mut w1 = w0.fork();
    let terms: Vec<T> = ks.iter().map(|(a, vs)| t(true, E::Id(es[0]), w1.a(a.name), X::Val(vs.first().cloned().unwrap_or(V::Ref(es[1]))))).collect();
    let edn = w1.m.tx_edn(&terms);
    if let Err(d) = w1.step(&terms, &edn) {
        ctx.violation("C04/table/start", "table", d);
        return;
    }
    let lits = literals();
    let forms = ["add", "retract", "map", "lookup", "nested"];
    for (wi, w) in [w0, w1].iter().enumerate() {
        let n = attrs.len() * lits.len() * forms.len();
        crate::world::par(ctx, w, n, |w, i| {
            let (f, rest) = (i % forms.len(), i / forms.len());
            let (text, lit) = &lits[rest % lits.len()];
            let a = &attrs[rest / lits.len()];
            let case = format!("table|{}|{}|{}|{}", wi, a.name, text, forms[f]);
            if !ctx.want(&case) {
                return;
            }
            let aid = w.a(a.name);
            let e = es[0];
            let m = meaning(w, a, lit);
            let name = w.a("t/name");
            let (edn, terms): (String, Result<Vec<T>, Reject>) = match forms[f] {
                "add" => (format!("[[:db/add {} :{} {}]]", e, a.name, text), m.map(|x| vec![t(true, E::Id(e), aid, x)])),
                "retract" => (format!("[[:db/retract {} :{} {}]]", e, a.name, text), m.map(|x| vec![t(false, E::Id(e), aid, x)])),
                "map" => {
                    if text.starts_with('{') {
                        return;
                    }
                    (format!("[{{:db/id {} :{} {}}}]", e, a.name, text), m.map(|x| vec![t(true, E::Id(e), aid, x)]))
                }
                // A vector of one value: only for cardinality-many attributes.
                "nested" => {
                    if !a.many || text.starts_with('{') {
                        return;
                    }
                    (format!("[{{:db/id {} :{} [{}]}}]", e, a.name, text), m.map(|x| vec![t(true, E::Id(e), aid, x)]))
                }
                _ => {
                    // (lookup-ref a text): a value of the attribute's type; an entity must have it.
                    let edn = format!("[[:db/add (lookup-ref :{} {}) :t/name \"found\"]]", a.name, text);
                    let r = match m {
                        _ if a.uniq == Uniq::No => Err(Reject::Notation),
                        Ok(X::Val(v)) => Ok(vec![t(true, E::Look(aid, v), name, X::Val(V::s("found")))]),
                        // A string is no value of a ref attribute here.
                        Ok(_) => Err(Reject::Type),
                        Err(r) => Err(r),
                    };
                    (edn, r)
                }
            };
            ctx.transition(1);
            let mut g = w.fork();
            let r = g.step_with(terms.as_ref().map(|t| t.as_slice()).map_err(|e| e.clone()), &edn, |db| db.transact(&edn));
            match r.and_then(|acc| invariants(&g).map(|_| acc)) {
                Err(d) => ctx.violation(format!("C04/{}", case), case, d),
                Ok(acc) => {
                    ctx.trace(1);
                    ctx.outcome(&(wi, a.name, text, f, acc));
                    ctx.count(if acc { "table_accepted" } else { "table_refused" }, 1);
                    ctx.sample(if acc { "accepted" } else { "refused" }, || edn.clone());
                }
            }
        });
    }
}

fn constraints(ctx: &Ctx) {
    let attrs = vec![
        at("t/uv", Vt::Long, false).uniq(Uniq::Value),
        at("t/idm", Vt::Str, true).uniq(Uniq::Identity),
        at("t/l1", Vt::Long, false),
        at("t/rid", Vt::Ref, false).uniq(Uniq::Identity),
    ];
    let (mut w0, es) = World::new(&attrs, 2);
    let r = w0.db.must("[[:db/add \"e\" :db/ident :t/ent]]");
    let ent = r.tempids["e"];
    let txe = r.tx_id;
    w0.m.datoms = w0.db.datoms();
    w0.log = w0.db.log();
    let (uv, idm, l1, rid) = (w0.a("t/uv"), w0.a("t/idm"), w0.a("t/l1"), w0.a("t/rid"));
    let ents: Vec<(String, Result<E, Reject>)> = vec![
        (es[0].to_string(), Ok(E::Id(es[0]))),
        (es[1].to_string(), Ok(E::Id(es[1]))),
        ("\"x\"".into(), Ok(E::Tmp("x".into()))),
        (":t/ent".into(), Ok(E::Id(ent))),
        ("(transaction-tx)".into(), Ok(E::Tx)),
        (txe.to_string(), Ok(E::Id(txe))),
        (":t/nope".into(), Err(Reject::Unknown)),
        ("99999".into(), Err(Reject::Unknown)),
        ("(lookup-ref :t/uv 1)".into(), Ok(E::Look(uv, V::Long(1)))),
    ];
    let lng = |x| Ok(X::Val(V::Long(x)));
    let avs: Vec<(String, i64, Result<X, Reject>)> = vec![
        (":t/uv 1".into(), uv, lng(1)),
        (":t/uv 2".into(), uv, lng(2)),
        (":t/idm \"a\"".into(), idm, Ok(X::Val(V::s("a")))),
        (":t/idm \"b\"".into(), idm, Ok(X::Val(V::s("b")))),
        (":t/l1 1".into(), l1, lng(1)),
        (":t/l1 2".into(), l1, lng(2)),
        (format!(":t/rid {}", es[0]), rid, Ok(X::Val(V::Ref(es[0])))),
        (":t/rid \"x\"".into(), rid, Ok(X::Tmp("x".into()))),
        (":t/rid :t/ent".into(), rid, Ok(X::Val(V::Ref(ent)))),
        (":t/rid :t/nope".into(), rid, Err(Reject::Unknown)),
        (":t/rid 99999".into(), rid, Err(Reject::Unknown)),
        (":t/l1 \"s\"".into(), l1, Err(Reject::Type)),
        (":t/none 1".into(), l1, Err(Reject::Unknown)),
        (":t/ent 1".into(), l1, Err(Reject::Unknown)),
        ("99999 1".into(), l1, Err(Reject::Unknown)),
        (format!("{} 1", l1), l1, lng(1)),
        (":t/uv (lookup-ref :t/idm \"a\")".into(), uv, Err(Reject::Type)),
    ];
    let mut terms: Vec<(String, Result<T, Reject>)> = vec![];
    for (ei, (et, e)) in ents.iter().enumerate() {
        for (ai, (at_, a, x)) in avs.iter().enumerate() {
            // Erroneous values with the first entity and the tempid only; erroneous entities with two values.
            let bad_e = e.is_err();
            let bad_x = ai >= 9;
            if (bad_x && ei != 0 && ei != 2) || (bad_e && ai != 0 && ai != 2) || (ei >= 4 && !bad_e && ![0, 3, 4].contains(&ai)) {
                continue;
            }
            for add in [true, false] {
                let tm = match (e, x) {
                    (Ok(e), Ok(x)) => Ok(t(add, e.clone(), *a, x.clone())),
                    (Err(r), _) | (_, Err(r)) => Err(r.clone()),
                };
                terms.push((format!("[:db/{} {} {}]", if add { "add" } else { "retract" }, et, at_), tm));
            }
        }
    }
    // Errors only ever need one companion: pairs of two erroneous terms add nothing.
    let mut txs: Vec<Vec<usize>> = (0..terms.len()).map(|i| vec![i]).collect();
    let singles = txs.len();
    for i in 0..terms.len() {
        for j in i + 1..terms.len() {
            if terms[i].1.is_err() && terms[j].1.is_err() {
                continue;
            }
            if (terms[i].1.is_err() || terms[j].1.is_err()) && (i + j) % 7 != 0 && !ctx.thorough {
                continue;
            }
            txs.push(vec![i, j]);
        }
    }
    // Deeper states get the pairs about one attribute (thorough: all of them).
    let near: Vec<Vec<usize>> = txs.iter().filter(|t| t.len() == 1 || matches!((&terms[t[0]].1, &terms[t[1]].1), (Ok(x), Ok(y)) if x.a == y.a)).cloned().collect();
    ctx.note("constraint_terms", terms.len().to_string());
    let key = |w: &World| -> Vec<crate::db::Datom> { w.m.datoms.keys().filter(|d| [uv, idm, l1, rid].contains(&d.1) && d.0 < 0x10000000).cloned().collect() };
    // States reached by single terms from the empty and from a populated store; in each, all transactions.
    let mut w1 = w0.fork();
    let st = vec![t(true, E::Id(es[0]), uv, X::Val(V::Long(1))), t(true, E::Id(es[1]), uv, X::Val(V::Long(2))), t(true, E::Id(es[0]), idm, X::Val(V::s("a"))), t(true, E::Id(es[1]), rid, X::Val(V::Ref(es[0]))), t(true, E::Id(es[0]), l1, X::Val(V::Long(1)))];
    let edn = w1.m.tx_edn(&st);
    if let Err(d) = w1.step(&st, &edn) {
        ctx.violation("C04/constraints/start", "constraints", d);
        return;
    }
    for (tag, w, deep) in [("empty", &w0, false), ("populated", &w1, false), ("empty+", &w0, true), ("populated+", &w1, true)] {
        if deep && ctx.thorough {
            continue;
        }
        let txs = if deep { &near } else { &txs };
        let name = |op: usize| format!("[{}]", txs[op].iter().map(|i| terms[*i].0.as_str()).collect::<Vec<_>>().join(" "));
        let exec = |w: &mut World, op: usize| {
            let edn = name(op);
            let ts: Result<Vec<T>, Reject> = txs[op].iter().map(|i| terms[*i].1.clone()).collect();
            w.step_with(ts.as_ref().map(|t| t.as_slice()).map_err(|e| e.clone()), &edn, |db| db.transact(&edn))
        };
        let k0 = key(w);
        explore(
            ctx,
            &Search { name: tag, nops: txs.len(), depth: if ctx.thorough { 3 } else if deep { 2 } else { 1 }, op_name: &name },
            w,
            k0.clone(),
            |w, op| {
                let _ = exec(w, op);
            },
            |w, op| {
                let acc = exec(w, op)?;
                invariants(w)?;
                let k = key(w);
                ctx.outcome(&(op, &k, acc));
                ctx.count(if acc { "accepted" } else { "refused" }, 1);
                // Only states that a single term reaches are expanded.
                Ok(if acc && op < singles && k != k0 { Some(k) } else { None })
            },
        );
    }
}

pub fn run(ctx: &Ctx) {
    type_table(ctx);
    ctx.note("table_s", format!("{:.1}", ctx.elapsed()));
    constraints(ctx);
}
