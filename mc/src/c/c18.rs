//! C18: the log can be queried faithfully.
use crate::c::c10::val;
use crate::db::*;
use crate::h::*;
use crate::val::V;
use mentat::{Queryable, QueryInputs, QueryResults, TypedValue, Variable};
use std::collections::BTreeSet;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every sequence of the transactions below is committed to the real store (and, as a variation, the last transaction is then moved off the main timeline); in every state reached, every range of transaction ids over the boundary points is asked for with tx-ids in every way to give the bounds, and the data of every transaction with tx-data in every shape of binding and in joins with patterns, types, comparisons, negations, fulltext search and each other; the answers are compared with those computed from the rows of the log",
        bounds: "11 transactions covering every value type, replacement, retraction, schema changes, named and empty transactions; sequences of <= 2 (quick) / 3 (thorough); bounds: around every transaction, zero, the first possible and the largest id; 31 shapes of binding",
        assumptions: vec!["a bound given as an instant, or given by a variable that is bound by a later clause, may be refused", "the log's own rows are checked by C05 and C16"],
    }
}

const OPS: &[&str] = &[
    "[[:db/add :e/p :l/long 1]]",
    "[[:db/add :e/p :l/long 2] [:db/add :e/q :l/long 1]]",
    "[[:db/add :e/p :l/str \"x\"] [:db/add :e/p :l/str \"one two\"] [:db/add (transaction-tx) :l/str \"x\"]]",
    "[[:db/retract :e/p :l/str \"x\"] [:db/retract :e/p :l/long 1]]",
    "[[:db/add :e/p :l/fts \"one two\"] [:db/add :e/q :l/fts \"two three\"]]",
    "[[:db/add :e/p :l/fts \"two three\"]]",
    "[[:db/retract :e/p :l/fts \"one two\"] [:db/add :e/q :l/ftm \"one two\"] [:db/add :e/q :l/ftm \"three\"]]",
    "[{:l/long 1 :l/dbl 1.5 :l/bool true :l/inst #inst \"2001-01-01T00:00:00.000001Z\" :l/str \"1\" :l/kw :l/long :l/uuid #uuid \"11111111-2222-3333-4444-555555555555\" :l/ref :e/p}]",
    "[{:db/ident :l/new :db/valueType :db.type/ref :db/cardinality :db.cardinality/one} {:db/ident :e/r}]",
    "[{:db/id (transaction-tx) :db/ident :t/named :l/long 7}]",
    "[]",
];

fn schema() -> Db {
    let mut db = Db::new();
    let mut s = String::from("[");
    for (n, t) in [("long", "long"), ("dbl", "double"), ("bool", "boolean"), ("inst", "instant"), ("kw", "keyword"), ("uuid", "uuid"), ("ref", "ref")].iter() {
        s += &format!("{{:db/ident :l/{} :db/valueType :db.type/{} :db/cardinality :db.cardinality/one}}", n, t);
    }
    s += "{:db/ident :l/str :db/valueType :db.type/string :db/cardinality :db.cardinality/many}
          {:db/ident :l/fts :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true}
          {:db/ident :l/ftm :db/valueType :db.type/string :db/cardinality :db.cardinality/many :db/index true :db/fulltext true}]";
    db.must(&s);
    db.must("[{:db/ident :e/p} {:db/ident :e/q}]");
    db
}

pub type Row = Vec<V>;

pub fn ask(db: &Db, q: &str, inputs: Vec<(&str, TypedValue)>) -> Result<Result<BTreeSet<Row>, String>, String> {
    let i = QueryInputs::with_value_sequence(inputs.into_iter().map(|(n, v)| (Variable::from_valid_name(n), v)).collect());
    guard(|| match db.conn.q_once(&db.sql, q, i) {
        Err(e) => Ok(Err(e.to_string())),
        Ok(o) => match o.results {
            QueryResults::Rel(r) => {
                let rows: Vec<Row> = r.rows().map(|r| r.iter().map(val).collect()).collect();
                let set: BTreeSet<Row> = rows.iter().cloned().collect();
                if set.len() != rows.len() {
                    return Err(format!("{}: repeated rows {:?}", q, rows));
                }
                Ok(Ok(set))
            }
            QueryResults::Coll(c) => Ok(Ok(c.iter().map(|b| vec![val(b)]).collect())),
            x => Err(format!("{:?}", x)),
        },
    })
    .and_then(|r| r)
    .map_err(|e| format!("{}: {}", q, e))
}

pub fn must(ctx: &Ctx, db: &Db, q: &str, inputs: Vec<(&str, TypedValue)>, want: BTreeSet<Row>) -> Result<(), String> {
    ctx.eval(1);
    ctx.outcome(&want);
    match ask(db, q, inputs)? {
        Ok(ref got) if *got == want => Ok(()),
        got => Err(format!("{} gives {:?} instead of {:?}", q, got, want)),
    }
}

pub fn may(ctx: &Ctx, db: &Db, q: &str, want: BTreeSet<Row>) -> Result<(), String> {
    ctx.eval(1);
    match ask(db, q, vec![])? {
        Err(_) => {
            ctx.count("refused_as_it_may_be", 1);
            Ok(())
        }
        Ok(ref got) if *got == want => Ok(()),
        got => Err(format!("{} gives {:?} instead of {:?}", q, got, want)),
    }
}

fn check(ctx: &Ctx, db: &Db) -> Result<(), String> {
    ctx.state(1);
    let log = db.log();
    let datoms = db.datoms();
    let idents: Vec<(i64, V)> = db.dump().idents.into_iter().map(|(e, _, v)| (e, v)).collect();
    let id = |n: &str| idents.iter().find(|(_, v)| *v == V::kw(n)).map(|(e, _)| *e);
    let txs: BTreeSet<i64> = log.iter().map(|r| r.0).collect();
    let last = *txs.iter().next_back().unwrap();
    let instant = id("db/txInstant").unwrap();
    // tx-ids
    let mut points: BTreeSet<i64> = vec![0, 1, 0x1000_0000, i64::MAX].into_iter().collect();
    for t in &txs {
        points.insert(*t);
        points.insert(t + 1);
    }
    for a in &points {
        for b in &points {
            let want: BTreeSet<Row> = txs.iter().filter(|t| *a <= **t && **t < *b).map(|t| vec![V::Ref(*t)]).collect();
            must(ctx, db, &format!("[:find ?tx :where [(tx-ids $ {} {}) [[?tx]]]]", a, b), vec![], want.clone())?;
            must(ctx, db, &format!("[:find [?tx ...] :where [(tx-ids $ {} {}) [?tx ...]]]", a, b), vec![], want.clone())?;
            must(ctx, db, "[:find ?tx :in ?a ?b :where [(tx-ids $ ?a ?b) [?tx ...]]]", vec![("?a", TypedValue::Ref(*a)), ("?b", TypedValue::Ref(*b))], want.clone())?;
            let with: BTreeSet<Row> = log.iter().filter(|r| *a <= r.0 && r.0 < *b).map(|r| vec![V::Ref(r.0), V::Ref(r.1), V::Ref(r.2), r.3.clone(), V::Bool(r.4)]).collect();
            must(ctx, db, &format!("[:find ?tx ?e ?a ?v ?added :where [(tx-ids $ {} {}) [[?tx]]] [(tx-data $ ?tx) [[?e ?a ?v _ ?added]]]]", a, b), vec![], with)?;
            if txs.contains(a) && txs.contains(b) {
                let of = |t: &i64| log.iter().find(|r| r.0 == *t && r.1 == *t && r.2 == instant && r.4).map(|r| r.3.edn()).unwrap();
                // Several transactions might have the same instant.
                let same = |t: &i64| log.iter().filter(|r| r.1 == r.0 && r.2 == instant && r.3.edn() == of(t)).map(|r| r.0).collect::<Vec<_>>();
                let (sa, sb) = (same(a), same(b));
                let wide: BTreeSet<Row> = txs.iter().filter(|t| sa.iter().any(|a| a <= *t) && sb.iter().any(|b| *t < b)).map(|t| vec![V::Ref(*t)]).collect();
                must(ctx, db, &format!("[:find ?tx :where [?a :db/txInstant {}] [?b :db/txInstant {}] [(tx-ids $ ?a ?b) [?tx ...]]]", of(a), of(b)), vec![], wide.clone())?;
                may(ctx, db, &format!("[:find ?tx :where [(tx-ids $ ?a ?b) [?tx ...]] [?a :db/txInstant {}] [?b :db/txInstant {}]]", of(a), of(b)), wide)?;
                may(ctx, db, &format!("[:find ?tx :where [(tx-ids $ {} {}) [?tx ...]]]", of(a), of(b)), want)?;
            }
        }
    }
    if let Some(named) = id("t/named") {
        let want = |f: &dyn Fn(i64) -> bool| txs.iter().filter(|t| f(**t)).map(|t| vec![V::Ref(*t)]).collect::<BTreeSet<Row>>();
        must(ctx, db, &format!("[:find ?tx :where [(tx-ids $ :t/named {}) [[?tx]]]]", i64::MAX), vec![], want(&|t| t >= named))?;
        must(ctx, db, "[:find ?tx :where [(tx-ids $ 0 :t/named) [[?tx]]]]", vec![], want(&|t| t < named))?;
        must(ctx, db, "[:find ?e ?a ?v ?added :where [(tx-data $ :t/named) [[?e ?a ?v _ ?added]]]]", vec![], log.iter().filter(|r| r.0 == named).map(|r| vec![V::Ref(r.1), V::Ref(r.2), r.3.clone(), V::Bool(r.4)]).collect())?;
    }
    // tx-data
    for t in txs.iter().cloned().chain(vec![0, last + 1]) {
        // The bootstrap's shapes needn't be repeated in every state.
        let data: Vec<Row> = log.iter().filter(|r| r.0 == t).map(|r| vec![V::Ref(r.1), V::Ref(r.2), r.3.clone(), V::Ref(r.0), V::Bool(r.4)]).collect();
        for mask in 1..32usize {
            let names = ["?e", "?a", "?v", "?tx", "?added"];
            let arity = 64 - (mask as u64).leading_zeros() as usize;
            for n in arity..=5 {
                let shape: Vec<&str> = (0..n).map(|i| if mask >> i & 1 == 1 { names[i] } else { "_" }).collect();
                let find: Vec<&str> = (0..5).filter(|i| mask >> i & 1 == 1).map(|i| names[i]).collect();
                let want: BTreeSet<Row> = data.iter().map(|r| (0..5).filter(|i| mask >> i & 1 == 1).map(|i| r[i].clone()).collect()).collect();
                must(ctx, db, &format!("[:find {} :where [(tx-data $ {}) [[{}]]]]", find.join(" "), t, shape.join(" ")), vec![], want)?;
            }
        }
        let all = "[[?e ?a ?v ?tx ?added]]";
        let eavo = |f: &dyn Fn(&Row) -> bool| data.iter().filter(|r| f(r)).map(|r| vec![r[0].clone(), r[1].clone(), r[2].clone(), r[4].clone()]).collect::<BTreeSet<Row>>();
        let r = |v: &V| if let V::Ref(e) = v { *e } else { panic!("no ref") };
        let current = |d: &Row| datoms.contains_key(&(r(&d[0]), r(&d[1]), d[2].clone()));
        let q = |rest: &str| format!("[:find ?e ?a ?v ?added :where [(tx-data $ {}) {}] {}]", t, all, rest);
        must(ctx, db, &q("[?e ?a ?v]"), vec![], eavo(&current))?;
        must(ctx, db, &q("(not [?e ?a ?v])"), vec![], eavo(&|d| !current(d)))?;
        must(ctx, db, &format!("[:find ?e ?a ?v ?added :where [?e ?a ?v] [(tx-data $ {}) {}]]", t, all), vec![], eavo(&current))?;
        must(ctx, db, &q("[?e ?a ?v ?tx]"), vec![], eavo(&|d| datoms.get(&(r(&d[0]), r(&d[1]), d[2].clone())) == Some(&t)))?;
        must(ctx, db, &q("[(ground true) ?added]"), vec![], eavo(&|d| d[4] == V::Bool(true)))?;
        must(ctx, db, &q("[(ground false) ?added]"), vec![], eavo(&|d| d[4] == V::Bool(false)))?;
        must(ctx, db, &q("[(type ?v :db.type/string)]"), vec![], eavo(&|d| matches!(d[2], V::Str(_))))?;
        must(ctx, db, &q("[(type ?v :db.type/ref)]"), vec![], eavo(&|d| matches!(d[2], V::Ref(_))))?;
        must(ctx, db, &q("[(ground \"one two\") ?v]"), vec![], eavo(&|d| d[2] == V::s("one two")))?;
        must(ctx, db, &q("[(ground true) ?v]"), vec![], eavo(&|d| d[2] == V::Bool(true)))?;
        must(ctx, db, &q("[(> ?v 1)] [(type ?v :db.type/long)]"), vec![], eavo(&|d| matches!(d[2], V::Long(n) if n > 1)))?;
        if let (Some(p), Some(lstr), Some(fts)) = (id("e/p"), id("l/str"), id("l/fts")) {
            must(ctx, db, &q("[?e :db/ident :e/p]"), vec![], eavo(&|d| r(&d[0]) == p))?;
            must(ctx, db, &q("[?a :db/ident :l/str]"), vec![], eavo(&|d| r(&d[1]) == lstr))?;
            for (name, a) in [("l/str", lstr), ("l/fts", fts)].iter() {
                let held: BTreeSet<&V> = datoms.keys().filter(|(_, b, _)| b == a).map(|d| &d.2).collect();
                must(ctx, db, &q(&format!("[_ :{} ?v]", name)), vec![], eavo(&|d| held.contains(&d[2])))?;
            }
            let found: BTreeSet<&V> = datoms.keys().filter(|(_, b, v)| *b == fts && matches!(v, V::Str(s) if s.contains("two"))).map(|d| &d.2).collect();
            must(ctx, db, &q("[(fulltext $ :l/fts \"two\") [[_ ?v]]]"), vec![], eavo(&|d| found.contains(&d[2])))?;
            must(ctx, db, "[:find ?a ?v ?added :in ?e ?t :where [(tx-data $ ?t) [[?e ?a ?v _ ?added]]]]", vec![("?e", TypedValue::Ref(p)), ("?t", TypedValue::Ref(t))], data.iter().filter(|d| r(&d[0]) == p).map(|d| vec![d[1].clone(), d[2].clone(), d[4].clone()]).collect())?;
        }
        must(ctx, db, &format!("[:find ?i ?v :where [(tx-data $ {}) [[?e _ ?v ?tx]]] [?tx :db/txInstant ?i]]", t), vec![], data.iter().flat_map(|d| datoms.keys().filter(|(e, a, _)| *e == t && *a == instant).map(move |(_, _, i)| vec![i.clone(), d[2].clone()])).collect())?;
        // Against the transaction before.
        if let Some(u) = txs.iter().filter(|u| **u < t).next_back() {
            let other: Vec<&(i64, i64, i64, V, bool)> = log.iter().filter(|r| r.0 == *u).collect();
            let want: BTreeSet<Row> = data.iter().flat_map(|d| other.iter().filter(move |o| o.3 == d[2]).map(move |o| vec![d[0].clone(), V::Ref(o.1), d[2].clone()])).collect();
            must(ctx, db, &format!("[:find ?e ?f ?v :where [(tx-data $ {}) [[?e _ ?v]]] [(tx-data $ {}) [[?f _ ?v]]]]", t, u), vec![], want)?;
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let n = OPS.len();
    let depth = if ctx.thorough { 3 } else { 2 };
    let mut cases = vec![];
    for k in 0..=depth {
        for s in sequences(n, k) {
            // Only one entity can have the ident.
            if s.iter().filter(|o| OPS[**o].contains(":t/named")).count() > 1 {
                continue;
            }
            for pop in [false, true].iter() {
                if *pop && k == 0 {
                    continue;
                }
                let case = format!("{:?}{}", s, if *pop { " moved" } else { "" });
                if ctx.want(&case) {
                    cases.push((s.clone(), *pop, case));
                }
            }
        }
    }
    ctx.par_with(cases.len(), schema, |root, i| {
        let (ops, pop, case) = &cases[i];
        if ctx.too_many() {
            return;
        }
        let r = (|| {
            let mut db = root.fork();
            let mut last = 0;
            for o in ops {
                ctx.transition(1);
                last = db.transact(OPS[*o]).map_err(|e| format!("{}: {}", OPS[*o], e))?.tx_id;
            }
            if *pop {
                ctx.transition(1);
                let schema = db.conn.current_schema();
                let parts = mentat_db::db::read_partition_map(&db.sql).map_err(|e| e.to_string())?;
                if let Err(e) = mentat_db::timelines::move_from_main_timeline(&db.sql, &schema, parts, last.., 1) {
                    ctx.count("not_movable", 1);
                    ctx.note("not_movable_because", format!("{}: {}", OPS[ops[ops.len() - 1]], e));
                    return Ok(());
                }
                db = db.try_fork()?;
            }
            ctx.trace(1);
            check(ctx, &db)
        })();
        if let Err(e) = r {
            ctx.violation(format!("C18/{}", case), case.clone(), e);
        }
    });
}
