//! C23: binding a query input equals writing the value into the query.
use crate::c::c10::*;
use crate::db::*;
use crate::dl::*;
use crate::h::*;
use crate::val::V;
use crate::vfs::*;
use mentat::{CacheDirection, Queryable, QueryExplanation, QueryInputs, QueryResults, TypedValue, Variable};
use mentat_transaction::CacheAction;
use std::collections::BTreeSet;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every sequence of where clauses of an alphabet covering every clause kind, with every variable in turn given as an input with every value of a domain covering every type, run once, prepared (and run twice) and explained on the real code; compared with a naive evaluator started with that variable bound; every query of a list with its inputs is also prepared, the data are changed through another handle, and each run is compared with the same query run once at that time, with every way of caching; every query of a list with its inputs goes through the query builder, too",
        bounds: "about 155 clauses over 6 variables, all single clauses and pairs, 17 values; quick: pairs with a clause of the reduced alphabet, one database for pairs; thorough: all pairs, both databases; 20 prepared queries x 12 changes x 6 ways to cache, all pairs of changes",
        assumptions: vec!["names in a prepared query mean what they meant when it was prepared", "inputs of a type that contradicts the query may be refused"],
    }
}

fn domain(ids: &Ids, w: &World) -> Vec<V> {
    vec![
        V::Ref(ids.a),
        V::Ref(ids.b),
        V::Ref(ids.tx),
        V::Ref(w.ident("t/l").unwrap()),
        V::Ref(w.ident("t/rm").unwrap()),
        V::Ref(1),
        V::Long(1),
        V::Long(2),
        V::Long(ids.a),
        V::Bool(true),
        V::dbl(1.5),
        V::s("x"),
        V::s(":t/l"),
        V::kw("t/l"),
        V::kw("t/nope"),
        V::Inst(1),
        V::Uuid([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]),
    ]
}


fn inputs(x: usize, v: &V) -> QueryInputs {
    QueryInputs::with_value_sequence(vec![(Variable::from_valid_name(NAMES[x]), v.to_typed())])
}

fn rows(r: QueryResults) -> Result<Vec<Vec<V>>, String> {
    match r {
        QueryResults::Rel(r) => Ok(r.rows().map(|r| r.iter().map(val).collect()).collect()),
        x => Err(format!("not a relation: {:?}", x)),
    }
}

type Answer = Result<Vec<Vec<V>>, String>;

fn once(db: &Db, text: &str, x: usize, v: &V) -> Result<Answer, String> {
    guard(|| match db.conn.q_once(&db.sql, text, inputs(x, v)) {
        Err(e) => Ok(Err(e.to_string())),
        Ok(o) => rows(o.results).map(Ok),
    })
    .and_then(|r| r)
}

fn prepared(db: &Db, text: &str, x: usize, v: &V) -> Result<Answer, String> {
    guard(|| match db.conn.q_prepare(&db.sql, text, inputs(x, v)) {
        Err(e) => Ok(Err(e.to_string())),
        Ok(mut p) => {
            let mut two = vec![];
            for _ in 0..2 {
                match p.run(None) {
                    Err(e) => return Ok(Err(e.to_string())),
                    Ok(o) => two.push(rows(o.results)?),
                }
            }
            if two[0] != two[1] {
                return Err(format!("prepared, it gives {:?} and then {:?}", two[0], two[1]));
            }
            Ok(Ok(two.pop().unwrap()))
        }
    })
    .and_then(|r| r)
}

fn type_name(v: &V) -> &'static str {
    match v {
        V::Ref(_) => "ref",
        V::Bool(_) => "boolean",
        V::Inst(_) => "instant",
        V::Long(_) => "long",
        V::Dbl(_) => "double",
        V::Str(_) => "string",
        V::Kw(_) => "keyword",
        _ => "uuid",
    }
}

fn judge(ctx: &Ctx, b: &(Db, World), cls: &[Cl], find: &[usize], x: usize, v: &V, deep: bool) -> Option<(String, String)> {
    let (db, w) = b;
    let text = format!("[:find {} :in {} :where {}]", vars_text(find), NAMES[x], all_text(cls));
    let what = format!("{} with {} = {:?}", text, NAMES[x], v);
    if std::env::var("MC_EXPLAIN").is_ok() {
        if let Ok(QueryExplanation::ExecutionPlan { query, .. }) = db.conn.q_explain(&db.sql, &text, inputs(x, v)) {
            eprintln!("{}\n{}", what, query.sql);
        }
    }
    ctx.transition(1);
    let got = match once(db, &text, x, v) {
        Err(p) => return Some(("panic".into(), format!("{}: {}", what, p))),
        Ok(g) => g,
    };
    if deep {
        ctx.transition(2);
        match prepared(db, &text, x, v) {
            Err(p) => return Some(("prepare".into(), format!("{}: {}", what, p))),
            Ok(p) => {
                let same = match (&p, &got) {
                    (Ok(p), Ok(g)) => p.iter().collect::<BTreeSet<_>>() == g.iter().collect::<BTreeSet<_>>() && p.len() == g.len(),
                    (Err(_), Err(_)) => true,
                    _ => false,
                };
                if !same {
                    return Some(("prepared".into(), format!("{} gives {:?} once, but prepared {:?}", what, got, p)));
                }
            }
        }
        match guard(|| db.conn.q_explain(&db.sql, &text, inputs(x, v)).map(|e| matches!(e, QueryExplanation::KnownEmpty(_))).map_err(|e| e.to_string())) {
            Err(p) => return Some(("explain".into(), format!("{}: {}", what, p))),
            Ok(e) => match (&e, &got) {
                (Err(_), Err(_)) | (Ok(false), Ok(_)) => {}
                (Ok(true), Ok(g)) if g.is_empty() => {}
                _ => return Some(("explained".into(), format!("{} gives {:?}, but explaining it gives {:?}", what, got, e))),
            },
        }
    }
    let bad = malformed(cls);
    let mut bound = binds(cls);
    bound.insert(x);
    let unbound = find.iter().any(|v| !bound.contains(v));
    let outer: BTreeSet<usize> = vec![x].into_iter().collect();
    // What the value tells about types can be reason to refuse.
    let mut typed = vec![Cl::Type(x, type_name(v))];
    if let V::Ref(e) = v {
        typed.extend(w.idents.iter().find(|i| i.1 == e).map(|i| Cl::Scalar(x, T::Id(i.0.clone()))));
    }
    typed.extend(cls.iter().cloned());
    // What it should be.
    let mut kws = BTreeSet::new();
    keyword_vars(cls, &mut kws);
    if let V::Kw(_) = v {
        kws.insert(x);
    }
    let name = |mut row: Vec<V>| -> Vec<V> {
        for (f, v) in find.iter().zip(row.iter_mut()) {
            if let (true, V::Kw(k)) = (kws.contains(f), &*v) {
                if let Some(e) = w.ident(k) {
                    *v = V::Ref(e);
                }
            }
        }
        row
    };
    let mut starts = vec![v.clone()];
    if let V::Kw(k) = v {
        starts.extend(w.ident(k).map(V::Ref));
    }
    let mut wanted: Vec<BTreeSet<Vec<V>>> = vec![];
    let mut nothing_binds = false;
    for s in &starts {
        let mut row = [0; NV];
        row[x] = w.ids[s];
        for r in World::readings(cls) {
            match w.eval(cls, vec![row], r) {
                Err(Unbound) => nothing_binds = true,
                Ok(rows) => {
                    let exp = rows.iter().map(|row| name(find.iter().map(|v| w.vals[row[*v] as usize].clone()).collect())).collect();
                    if !wanted.contains(&exp) {
                        wanted.push(exp);
                    }
                }
            }
        }
    }
    let got = match got {
        Err(e) => {
            if bad || unbound || nothing_binds || wanted.iter().any(|w| w.is_empty()) || may_refuse(w, &typed, &outer) {
                ctx.count("refused_as_it_may_be", 1);
                return None;
            }
            return Some(("refused".into(), format!("{} is refused: {}", what, e)));
        }
        Ok(g) => g,
    };
    if bad || nothing_binds {
        return if got.is_empty() { None } else { Some(("malformed".into(), format!("{} is malformed, but has answers {:?}", what, got))) };
    }
    let n = got.len();
    let set: BTreeSet<Vec<V>> = got.into_iter().map(&name).collect();
    if set.len() != n {
        let mut ground = cls.to_vec();
        ground.push(Cl::Scalar(x, T::C(v.clone())));
        if sqlite_distinct(&ground, find) {
            // A known finding of C10.
            ctx.count("sqlite_distinct", 1);
            return None;
        }
        return Some(("duplicates".into(), format!("{} returned {} rows, of which {} distinct", what, n, set.len())));
    }
    if wanted.contains(&set) {
        ctx.eval(1);
        if !set.is_empty() {
            ctx.count("with_answers", 1);
        }
        ctx.outcome(&(set.len(), find.len(), cls.len()));
        return None;
    }
    let e = wanted.iter().min_by_key(|w| w.symmetric_difference(&set).count())?;
    let missing: Vec<_> = e.difference(&set).take(3).collect();
    let extra: Vec<_> = set.difference(e).take(3).collect();
    Some(("answers".into(), format!("{}\n  answers: {} instead of {}\n  missing: {:?}\n  wrong: {:?}", what, set.len(), e.len(), missing, extra)))
}

fn clauses(ctx: &Ctx) {
    let (_, ids) = databases();
    let al = alphabet(&ids);
    let n = al.len();
    let mut jobs: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        jobs.push(vec![i]);
    }
    for i in 0..n {
        for j in 0..n {
            if ctx.thorough || al[i].1 || al[j].1 {
                jobs.push(vec![i, j]);
            }
        }
    }
    ctx.note("sequences", jobs.len().to_string());
    let bench = || {
        let mut b = Bench::new(&al);
        for (_, w) in b.dbs.iter_mut() {
            for v in domain(&ids, w) {
                w.id(&v);
            }
        }
        b
    };
    ctx.par_with(jobs.len(), &bench, |b, ji| {
        let job = &jobs[ji];
        let cls: Vec<Cl> = job.iter().map(|i| al[*i].0.clone()).collect();
        let case = job.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
        if !ctx.want(&case) || ctx.too_many() {
            return;
        }
        ctx.state(1);
        let all: BTreeSet<usize> = {
            let b = binds(&cls);
            if b.is_empty() { mentioned(&cls) } else { b }
        };
        for x in mentioned(&cls) {
            let mut find = all.clone();
            find.insert(x);
            let find: Vec<usize> = find.into_iter().collect();
            let other: Vec<usize> = find.iter().filter(|f| **f != x).cloned().collect();
            let mut finds = vec![find];
            if job.len() == 1 && !other.is_empty() {
                finds.push(other);
            }
            for (vi, v) in domain(&ids, &b.dbs[0].1).iter().enumerate() {
                let mut failed = None;
                'dbs: for (di, d) in b.dbs.iter().enumerate() {
                    if di > 0 && !ctx.thorough && job.len() > 1 {
                        continue;
                    }
                    for f in &finds {
                        let deep = ctx.thorough || job.len() == 1 || (ji + vi) % 5 == 0;
                        if let Some((kind, what)) = judge(ctx, d, &cls, f, x, v, deep) {
                            ctx.violation(format!("C23/{}/{}/{}/{:?}", kind, case, NAMES[x], v), case.clone(), format!("database {}: {}", di, what));
                            failed = Some(kind);
                            break 'dbs;
                        }
                    }
                }
                if failed.is_some() {
                    if failed.as_ref().map_or(false, |k| k == "panic" || k == "prepare" || k == "explain") {
                        *b = bench();
                    }
                    // One for each variable will do.
                    break;
                }
            }
        }
    });
}

/// Queries to prepare: text and inputs.
fn to_prepare(db: &Db) -> Vec<(&'static str, Vec<(&'static str, TypedValue)>)> {
    let r = |n: &str| TypedValue::Ref(db.entid(n));
    let s = |x: &str| TypedValue::from(x);
    let l = |x: i64| TypedValue::Long(x);
    vec![
        ("[:find ?e ?v :where [?e :p/l ?v]]", vec![]),
        ("[:find ?v . :where [:e/p :p/l ?v]]", vec![]),
        ("[:find ?v . :in ?e :where [?e :p/l ?v]]", vec![("?e", r("e/p"))]),
        ("[:find [?v ...] :in ?e :where [?e :p/lm ?v]]", vec![("?e", r("e/p"))]),
        ("[:find ?e :in ?v :where [?e :p/l ?v]]", vec![("?v", l(1))]),
        ("[:find ?e :in ?v :where [?e :p/lm ?v]]", vec![("?v", l(2))]),
        ("[:find ?e ?v :in ?v :where [?e :p/s ?v]]", vec![("?v", s("x"))]),
        ("[:find ?e . :where [?e :p/s \"y\"]]", vec![]),
        ("[:find ?v :where [?e :p/s \"x\"] [?e :p/l ?v]]", vec![]),
        ("[:find ?e :where [?e :p/k :e/p]]", vec![]),
        ("[:find ?e ?f :where [?e :p/r ?f]]", vec![]),
        ("[:find ?e :in ?f :where [?e :p/r ?f]]", vec![("?f", r("e/q"))]),
        ("[:find ?e :in ?v :where [?e :p/l _] (not [?e :p/l ?v])]", vec![("?v", l(1))]),
        ("[:find ?e ?v :in ?b :where [?e :p/lm ?v] [(< ?v ?b)]]", vec![("?b", l(2))]),
        ("[:find (count ?e) (sum ?v) :where [?e :p/lm ?v]]", vec![]),
        ("[:find (count ?e) . :in ?v :where [?e :p/l ?v]]", vec![("?v", l(2))]),
        ("[:find (pull ?e [:p/l :p/lm :p/s]) :in ?e :where [?e :db/ident _]]", vec![("?e", r("e/p"))]),
        ("[:find [?e ?v] :in ?e :where [?e :p/f ?v]]", vec![("?e", r("e/q"))]),
        ("[:find ?e ?v :in ?t :where [(fulltext $ :p/f ?t) [[?e ?v]]]]", vec![("?t", s("one"))]),
        ("[:find ?e :in ?v :where (or [?e :p/l ?v] [?e :p/lm ?v])]", vec![("?v", l(2))]),
        ("[:find ?e ?v ?tx :where [?e :p/lm ?v ?tx] :order (desc ?tx) (asc ?v) (asc ?e) :limit 2]", vec![]),
        ("[:find ?e ?v :in ?n :where [?e :p/lm ?v] :order (asc ?v) (asc ?e) :limit ?n]", vec![("?n", l(2))]),
    ]
}

const CHANGES: &[&str] = &[
    "[[:db/add :e/p :p/l 1]]",
    "[[:db/add :e/p :p/l 2] [:db/add :e/q :p/l 1]]",
    "[[:db/retract :e/p :p/l 1]]",
    "[[:db/add :e/p :p/lm 2] [:db/add :e/p :p/lm 3]]",
    "[[:db/retract :e/p :p/lm 2] [:db/add :e/q :p/lm 2]]",
    "[[:db/add :e/p :p/s \"x\"]]",
    "[[:db/add :e/p :p/s \"y\"]]",
    "[[:db/retract :e/p :p/s \"x\"] [:db/add :e/q :p/s \"x\"]]",
    "[[:db/add :e/p :p/r :e/q] [:db/add :e/q :p/k :e/p]]",
    "[[:db/add :e/p :p/r :e/p] [:db/retract :e/q :p/k :e/p]]",
    "[[:db/add :e/q :p/f \"one two\"] [:db/add :e/p :p/f \"One\"]]",
    "[[:db/add :e/q :p/f \"two\"] [:db/add :e/p :p/lm 1]]",
];

/// A list sorted, unless it's ordered by the query.
fn canonical(text: &str, r: &QueryResults) -> String {
    if text.contains(":order") {
        return format!("{:?}", r);
    }
    match r {
        QueryResults::Rel(r) => {
            let mut v: Vec<String> = r.rows().map(|r| format!("{:?}", r)).collect();
            v.sort();
            v.join("\n")
        }
        QueryResults::Coll(c) => {
            let mut v: Vec<String> = c.iter().map(|r| format!("{:?}", r)).collect();
            v.sort();
            v.join("\n")
        }
        r => format!("{:?}", r),
    }
}

fn given(i: &[(&'static str, TypedValue)]) -> QueryInputs {
    QueryInputs::with_value_sequence(i.iter().map(|(n, v)| (Variable::from_valid_name(*n), v.clone())).collect())
}

fn base() -> Db {
    let mut db = Db::new();
    db.must(
        "[{:db/ident :p/l :db/valueType :db.type/long :db/cardinality :db.cardinality/one}
          {:db/ident :p/lm :db/valueType :db.type/long :db/cardinality :db.cardinality/many}
          {:db/ident :p/s :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true}
          {:db/ident :p/k :db/valueType :db.type/keyword :db/cardinality :db.cardinality/one}
          {:db/ident :p/r :db/valueType :db.type/ref :db/cardinality :db.cardinality/one}
          {:db/ident :p/f :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true}
          {:db/ident :e/p} {:db/ident :e/q}]",
    );
    db
}

/// Prepared, changed, run.
fn changes(ctx: &Ctx) {
    let start = base();
    let image: Image = {
        let disk = DiskRef::new(&Image::new());
        let mut sql = mentat::new_connection(&disk.uri()).expect("open");
        {
            let b = rusqlite::backup::Backup::new(&start.sql, &mut sql).expect("backup");
            b.step(-1).expect("step");
        }
        drop(sql);
        disk.image()
    };
    use CacheDirection::*;
    let caching: Vec<Vec<(CacheDirection, &str)>> = vec![
        vec![],
        vec![(Forward, "p/l"), (Forward, "p/lm")],
        vec![(Reverse, "p/l"), (Reverse, "p/lm"), (Reverse, "p/s")],
        vec![(Both, "p/l"), (Both, "p/lm"), (Both, "p/s"), (Both, "p/r"), (Both, "p/k")],
        vec![(Both, "p/s")],
        vec![(Forward, "p/f"), (Both, "p/r"), (Reverse, "p/k")],
    ];
    let n = CHANGES.len();
    let mut cases = vec![];
    for c in 0..caching.len() {
        for i in 0..n {
            for j in 0..n {
                for k in 0..if ctx.thorough { n } else { 1 } {
                    let case = format!("prepared|{}|{},{}{}", c, i, j, if ctx.thorough { format!(",{}", k) } else { String::new() });
                    if ctx.want(&case) {
                        cases.push((c, if ctx.thorough { vec![i, j, k] } else { vec![i, j] }, case));
                    }
                }
            }
        }
    }
    ctx.par_with(cases.len(), base, |start, ci| {
        let (c, seq, case) = &cases[ci];
        if ctx.too_many() {
            return;
        }
        let disk = DiskRef::new(&image);
        let r = guard(|| -> Result<(), String> {
            let e = |e: &dyn std::fmt::Display| e.to_string();
            let mut writer = mentat::new_connection(&disk.uri()).map_err(|x| e(&x))?;
            let mut conn = mentat::Conn::connect(&mut writer).map_err(|x| e(&x))?;
            let reader = mentat::new_connection(&disk.uri()).map_err(|x| e(&x))?;
            let schema = conn.current_schema();
            for (d, a) in &caching[*c] {
                let d = match d {
                    Forward => Forward,
                    Reverse => Reverse,
                    Both => Both,
                };
                conn.cache(&mut writer, &schema, &crate::val::kw(a), d, CacheAction::Register).map_err(|x| e(&x))?;
            }
            let qs = to_prepare(start);
            let mut ready: Vec<(usize, usize, mentat::query::PreparedQuery)> = vec![];
            for step in 0..=seq.len() {
                for (qi, (q, i)) in qs.iter().enumerate() {
                    ready.push((qi, step, conn.q_prepare(&reader, q, given(i)).map_err(|x| format!("preparing {}: {}", q, x))?));
                }
                let mut now = vec![];
                for (q, i) in &qs {
                    now.push(canonical(q, &conn.q_once(&writer, q, given(i)).map_err(|x| format!("{}: {}", q, x))?.results));
                    ctx.outcome(now.last().unwrap());
                }
                for (qi, at, p) in ready.iter_mut() {
                    ctx.transition(1);
                    let got = canonical(qs[*qi].0, &p.run(None).map_err(|x| format!("running {}: {}", qs[*qi].0, x))?.results);
                    if got != now[*qi] {
                        return Err(format!("caching {:?}: {} with {:?}, prepared {}, now gives\n{}\nrun once, it gives\n{}", caching[*c].iter().map(|c| c.1).collect::<Vec<_>>(), qs[*qi].0, qs[*qi].1, if *at == step { "now".to_string() } else { format!("before {:?}", seq[*at..step].iter().map(|s| CHANGES[*s]).collect::<Vec<_>>()) }, got, now[*qi]));
                    }
                }
                if step < seq.len() {
                    ctx.transition(1);
                    let _ = conn.transact(&mut writer, CHANGES[seq[step]]);
                }
            }
            Ok(())
        })
        .and_then(|r| r);
        ctx.trace(1);
        if let Err(d) = r {
            ctx.violation(format!("C23/{}", case), case.clone(), d);
        }
    });
}

/// The query builder.
fn builder(ctx: &Ctx) {
    if !ctx.want("builder") {
        return;
    }
    let r = guard(|| -> Result<(), String> {
        let mut store = mentat::Store::open("").map_err(|e| e.to_string())?;
        let b = base();
        let log: Vec<&str> = CHANGES.iter().cloned().collect();
        store.transact("[{:db/ident :p/l :db/valueType :db.type/long :db/cardinality :db.cardinality/one} {:db/ident :p/lm :db/valueType :db.type/long :db/cardinality :db.cardinality/many} {:db/ident :p/s :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true} {:db/ident :p/k :db/valueType :db.type/keyword :db/cardinality :db.cardinality/one} {:db/ident :p/r :db/valueType :db.type/ref :db/cardinality :db.cardinality/one} {:db/ident :p/f :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true} {:db/ident :e/p} {:db/ident :e/q}]").map_err(|e| e.to_string())?;
        store.transact("[{:db/ident :p/i :db/valueType :db.type/instant :db/cardinality :db.cardinality/one} {:db/ident :p/d :db/valueType :db.type/double :db/cardinality :db.cardinality/one} {:db/ident :p/b :db/valueType :db.type/boolean :db/cardinality :db.cardinality/one} {:db/ident :p/u :db/valueType :db.type/uuid :db/cardinality :db.cardinality/one}]").map_err(|e| e.to_string())?;
        store.transact("[[:db/add :e/p :p/i #inst \"2001-02-03T04:05:06.789Z\"] [:db/add :e/p :p/d 1.5] [:db/add :e/p :p/b true] [:db/add :e/p :p/u #uuid \"00000000-0000-0000-0000-000000000001\"]]").map_err(|e| e.to_string())?;
        for t in log {
            ctx.transition(1);
            let _ = store.transact(t);
            for (q, i) in to_prepare(&b) {
                ctx.eval(1);
                let once = store.q_once(q, given(&i)).map_err(|e| e.to_string())?.results;
                let mut qb = mentat::QueryBuilder::new(&mut store, q);
                for (n, v) in &i {
                    match v {
                        TypedValue::Ref(e) => {
                            qb.bind_ref(n, *e);
                        }
                        TypedValue::Long(l) => {
                            qb.bind_long(n, *l);
                        }
                        v => {
                            qb.bind_value(n, v.clone());
                        }
                    }
                    qb.bind_type(n, v.value_type());
                }
                let got = qb.execute().map_err(|e| e.to_string())?.results;
                if canonical(q, &once) != canonical(q, &got) {
                    return Err(format!("{} with {:?} through the builder gives {:?} instead of {:?}", q, i, got, once));
                }
                // Each way to ask gives the answer or an error; what was bound first doesn't matter.
                for way in 0..4 {
                    let mut qb = mentat::QueryBuilder::new(&mut store, q);
                    for (n, v) in &i {
                        match v {
                            TypedValue::Ref(e) => qb.bind_ref(n, *e + 1).bind_ref(n, *e),
                            TypedValue::Long(l) => qb.bind_long(n, l.wrapping_add(1)).bind_long(n, *l),
                            v => qb.bind_value(n, "something else").bind_value(n, v.clone()),
                        };
                    }
                    let got = match way {
                        0 => qb.execute_scalar().map(QueryResults::Scalar),
                        1 => qb.execute_coll().map(QueryResults::Coll),
                        2 => qb.execute_tuple().map(QueryResults::Tuple),
                        _ => qb.execute_rel().map(QueryResults::Rel),
                    };
                    let kind = match once {
                        QueryResults::Scalar(_) => 0,
                        QueryResults::Coll(_) => 1,
                        QueryResults::Tuple(_) => 2,
                        QueryResults::Rel(_) => 3,
                    };
                    match got {
                        Ok(ref g) if way == kind && canonical(q, &once) == canonical(q, g) => {}
                        Err(_) if way != kind => {}
                        g => return Err(format!("{} with {:?} in way {} through the builder gives {:?} instead of {:?}", q, i, way, g, once)),
                    }
                }
                // By name.
                for (n, v) in &i {
                    if let TypedValue::Ref(_) = v {
                        for name in ["e/p", "e/q"].iter() {
                            if TypedValue::Ref(b.entid(name)) == *v {
                                let mut qb = mentat::QueryBuilder::new(&mut store, q);
                                qb.bind_ref_from_kw(n, crate::val::kw(name)).map_err(|e| e.to_string())?;
                                let got = qb.execute().map_err(|e| e.to_string())?.results;
                                if canonical(q, &once) != canonical(q, &got) {
                                    return Err(format!("{} with :{} through the builder gives {:?} instead of {:?}", q, name, got, once));
                                }
                            }
                        }
                    }
                }
            }
        }
        // Every type.
        let p = b.entid("e/p");
        let us = 981173106789000i64;
        for (a, v) in vec![("p/i", V::Inst(us)), ("p/d", V::dbl(1.5)), ("p/b", V::Bool(true)), ("p/u", V::Uuid([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]))] {
            ctx.eval(1);
            let q = format!("[:find [?e ...] :in ?v :where [?e :{} ?v]]", a);
            let mut qb = mentat::QueryBuilder::new(&mut store, q.clone());
            match v {
                V::Inst(us) => {
                    qb.bind_instant("?v", us);
                }
                ref v => {
                    qb.bind_value("?v", v.to_typed());
                }
            }
            let got: Vec<V> = qb.execute_coll().map_err(|e| e.to_string())?.iter().map(val).collect();
            if got != vec![V::Ref(p)] {
                return Err(format!("{} with {:?} through the builder gives {:?}", q, v, got));
            }
        }
        let mut qb = mentat::QueryBuilder::new(&mut store, "[:find ?e . :in ?v :where [?e :p/i ?v]]");
        if let TypedValue::Instant(i) = V::Inst(us).to_typed() {
            qb.bind_date_time("?v", i);
        }
        let got = qb.execute_scalar().map_err(|e| e.to_string())?;
        if got.as_ref().map(val) != Some(V::Ref(p)) {
            return Err(format!("bind_date_time: {:?}", got));
        }
        // A value that contradicts the type declared.
        let mut qb = mentat::QueryBuilder::new(&mut store, "[:find ?e . :in ?v :where [?e :p/l ?v]]");
        qb.bind_type("?v", mentat::ValueType::Long);
        qb.bind_value("?v", "x");
        if let Ok(r) = qb.execute_scalar() {
            if r.is_some() {
                return Err(format!("a string declared to be a long finds {:?}", r));
            }
        }
        Ok(())
    })
    .and_then(|r| r);
    if let Err(e) = r {
        ctx.violation("C23/builder", "builder", e);
    }
    // Inputs that are missing, or not wanted.
    let db = base();
    let r = guard(|| -> Result<(), String> {
        for q in ["[:find ?e :in ?v :where [?e :p/l ?v]]", "[:find ?v :in ?e ?v :where [?e :p/l ?v]]"].iter() {
            for i in [vec![], vec![("?e", TypedValue::Ref(65536))]].iter() {
                if let Ok(r) = db.conn.q_once(&db.sql, q, given(i)) {
                    return Err(format!("{} with only {:?} gives {:?}", q, i, r.results));
                }
                if db.conn.q_prepare(&db.sql, q, given(i)).is_ok() {
                    return Err(format!("{} with only {:?} can be prepared", q, i));
                }
            }
        }
        Ok(())
    })
    .and_then(|r| r);
    if let Err(e) = r {
        ctx.violation("C23/builder/missing", "builder", e);
    }
}

pub fn run(ctx: &Ctx) {
    builder(ctx);
    changes(ctx);
    clauses(ctx);
}
