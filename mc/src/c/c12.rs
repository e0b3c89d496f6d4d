//! C12: attribute caching never changes any answer.
use crate::db::*;
use crate::explore::{explore, Search, St};
use crate::h::*;
use crate::val::kw;
use mentat::{CacheDirection, HasSchema, Queryable};
use mentat_transaction::{CacheAction, InProgress};
use mentat_core::CachedAttributes;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every history of blocks (an operation on the store; or several in a transaction that is committed, rolled back or dropped) over cache registrations in each direction, assertions, replacements, retractions, schema alterations and savepoints is run on the real store; after each block, and inside each transaction, every query and lookup is answered with and without the caches and must agree, and whatever the cache itself says must be what the store holds; an attribute that exists can be cached",
        bounds: "13 kinds of attribute (types, cardinalities, uniqueness, fulltext), 2 entities, 2 values; quick: for all kinds all single-step blocks and all histories of 3 registrations, assertions and retractions on the store, for four kinds also all blocks of <= 2 steps and all histories of 2 single-step blocks; thorough: all blocks of <= 3 steps, all histories of 2 blocks of <= 2 steps and of 4 single-step blocks; states with equal datoms and caches are merged",
        assumptions: vec!["the order of the values of a lookup is not compared"],
    }
}

struct Kind {
    name: &'static str,
    ty: &'static str,
    many: bool,
    unique: &'static str,
    /// Two values and one that is never asserted.
    vals: [&'static str; 3],
}

fn kinds() -> Vec<Kind> {
    let k = |name, ty, many, unique, vals| Kind { name, ty, many, unique, vals };
    vec![
        k("long-one", "long", false, "", ["1", "2", "3"]),
        k("ref-many-value", "ref", true, "value", [":c/p", ":c/q", ":c/r"]),
        k("string-many", "string", true, "", ["\"a\"", "\"b\"", "\"c\""]),
        k("keyword-one-id", "keyword", false, "identity", [":k/a", ":k/b", ":k/c"]),
        k("ref-one", "ref", false, "", [":c/p", ":c/q", ":c/r"]),
        k("double-many", "double", true, "", ["1.0", "2.5", "3.0"]),
        k("boolean-one", "boolean", false, "", ["true", "false", "true"]),
        k("long-many-id", "long", true, "identity", ["1", "2", "3"]),
        k("instant-one-value", "instant", false, "value", ["#inst \"2020-01-01T00:00:00Z\"", "#inst \"2020-01-01T00:00:00.001Z\"", "#inst \"2021-01-01T00:00:00Z\""]),
        k("uuid-many", "uuid", true, "", ["#uuid \"00000000-0000-0000-0000-000000000001\"", "#uuid \"00000000-0000-0000-0000-000000000002\"", "#uuid \"00000000-0000-0000-0000-000000000003\""]),
        k("keyword-many", "keyword", true, "", [":c/p", ":k/b", ":k/c"]),
        k("fulltext-many", "string-ft", true, "", ["\"a\"", "\"b\"", "\"c\""]),
        k("fulltext-one", "string-ft", false, "", ["\"a\"", "\"b\"", "\"c\""]),
    ]
}

fn base(k: &Kind) -> Db {
    let mut db = Db::new();
    let (ty, ft) = if k.ty == "string-ft" { ("string", " :db/index true :db/fulltext true") } else { (k.ty, "") };
    let unique = if k.unique.is_empty() { String::new() } else { format!(" :db/unique :db.unique/{} :db/index true", k.unique) };
    let card = if k.many { "many" } else { "one" };
    db.must(&format!("[{{:db/ident :c/a :db/valueType :db.type/{} :db/cardinality :db.cardinality/{}{}{}}} {{:db/ident :c/b :db/valueType :db.type/{} :db/cardinality :db.cardinality/many}} {{:db/ident :c/p}} {{:db/ident :c/q}} {{:db/ident :c/r}}]", ty, card, unique, ft, ty));
    db.must(&format!("[[:db/add :c/p :c/a {}] [:db/add :c/p :c/b {}] [:db/add :c/q :c/b {}]]", k.vals[0], k.vals[0], k.vals[1]));
    db
}

#[derive(Clone)]
enum Step {
    Tx(String),
    /// Between a savepoint and its rollback.
    Saved(String),
    Cache(CacheDirection, CacheAction, &'static str),
}

fn dir_name(d: &CacheDirection) -> &'static str {
    match d {
        CacheDirection::Both => "both",
        CacheDirection::Forward => "forward",
        CacheDirection::Reverse => "reverse",
    }
}

impl Step {
    fn name(&self) -> String {
        match self {
            Step::Tx(s) => s.clone(),
            Step::Saved(s) => format!("savepoint, {}, rollback to savepoint", s),
            Step::Cache(d, CacheAction::Register, a) => format!("register {} {}", a, dir_name(d)),
            Step::Cache(_, CacheAction::Deregister, a) => format!("deregister {}", a),
        }
    }
}

fn steps(k: &Kind) -> Vec<Step> {
    use CacheAction::*;
    use CacheDirection::*;
    let (a, b) = (k.vals[0], k.vals[1]);
    let mut out = vec![
        Step::Cache(Both, Register, "c/a"),
        Step::Cache(Forward, Register, "c/a"),
        Step::Cache(Reverse, Register, "c/a"),
        Step::Cache(Both, Deregister, "c/a"),
        Step::Cache(Both, Register, "c/b"),
    ];
    for (op, e, v) in vec![("add", ":c/p", a), ("add", ":c/p", b), ("add", ":c/q", a), ("add", ":c/q", b), ("retract", ":c/p", a), ("retract", ":c/p", b), ("retract", ":c/q", b)] {
        out.push(Step::Tx(format!("[[:db/{} {} :c/a {}]]", op, e, v)));
    }
    out.push(Step::Tx(format!("[[:db/add :c/q :c/a {}] [:db/add :c/q :c/a {}] [:db/add :c/q :c/a {}]]", a, b, k.vals[2])));
    // Values change hands.
    out.push(Step::Tx(format!("[[:db/retract :c/p :c/a {}] [:db/add :c/p :c/a {}] [:db/add :c/q :c/a {}]]", a, b, a)));
    out.push(Step::Saved(format!("[[:db/add :c/p :c/a {}]]", b)));
    out.push(Step::Saved(format!("[[:db/retract :c/p :c/a {}]]", a)));
    // Refused after the new value may have been seen.
    out.push(Step::Tx(format!("[[:db/add :c/p :c/a {}] [:db/add :c/nobody :c/a {}]]", b, a)));
    out.push(Step::Tx(format!("[[:db/add :c/q :c/b {}] [:db/retract :c/p :c/b {}]]", a, a)));
    out.push(Step::Tx(format!("[[:db/add :c/a :db/cardinality :db.cardinality/{}]]", if k.many { "one" } else { "many" })));
    out.push(Step::Tx(if k.unique.is_empty() { "[[:db/add :c/a :db/index true] [:db/add :c/a :db/unique :db.unique/value]]".into() } else { format!("[[:db/retract :c/a :db/unique :db.unique/{}]]", k.unique) }));
    out.push(Step::Tx("[[:db/add :c/a :db/ident :c/c]]".into()));
    out.push(Step::Saved(format!("[[:db/add :c/a :db/cardinality :db.cardinality/{}]]", if k.many { "one" } else { "many" })));
    out
}

#[derive(Clone, Copy, PartialEq)]
enum End {
    Store,
    Commit,
    Rollback,
    Drop,
}

type Block = (Vec<usize>, End);

fn blocks(n: usize, max: usize) -> Vec<Block> {
    let mut out = vec![];
    for i in 0..n {
        out.push((vec![i], End::Store));
    }
    for len in 1..=max {
        for seq in sequences(n, len) {
            for e in [End::Commit, End::Rollback, End::Drop].iter() {
                // Dropping is rolling back: once per first step is enough.
                if *e == End::Drop && len > 1 {
                    continue;
                }
                out.push((seq.clone(), *e));
            }
        }
    }
    out
}

/// (query, is it a collection)
fn queries(k: &Kind, attr: &str, p: i64) -> Vec<String> {
    let [a, b, c] = &k.vals;
    let mut q = vec![];
    let mut w = |find: &str, clauses: &str| q.push(format!("[:find {} :where {}]", find, clauses));
    for e in [":c/p", ":c/q", ":c/r"].iter() {
        w("?v", &format!("[{} {} ?v]", e, attr));
    }
    for v in [a, b, c].iter() {
        w("?e", &format!("[?e {} {}]", attr, v));
        w("?x", &format!("[:c/p {} {}] [:c/q :c/b ?x]", attr, v));
        w("?e", &format!("[?e :c/b ?x] (not [?e {} {}])", attr, v));
        w("?e ?w", &format!("[?e {} {}] [?e {} ?w]", attr, v, attr));
    }
    w("?e ?v", &format!("[?e {} ?v]", attr));
    w("?v ?t", &format!("[:c/p {} ?v ?t]", attr));
    w("?e ?v", &format!("[{} {} ?v] [?e :c/b ?v]", p, attr));
    w("?e ?v", &format!("[?e :db/ident :c/p] [?e {} ?v]", attr));
    w("?e ?v", &format!("[?e :c/b ?v] (not [:c/p {} ?v])", attr));
    w("?e", &format!("[?e :c/b ?x] (not-join [?e] [?e {} ?v] [:c/p {} ?v])", attr, attr));
    w("?e ?v", &format!("[?e :c/b ?v] (or [:c/p {} ?v] [:c/q {} ?v])", attr, attr));
    w("?e", &format!("(or [?e {} {}] [?e :c/b {}])", attr, a, b));
    w("?e", &format!("(or-join [?e] (and [:c/p {} ?v] [?e :c/b ?v]) [?e {} {}])", attr, attr, b));
    w("?v ?w", &format!("[:c/p {} ?v] [:c/p :c/b ?w]", attr));
    w("(count ?v)", &format!("[:c/p {} ?v]", attr));
    w("?v", &format!("[:c/p {} ?v] [?y {} ?v] [?y :c/b ?z]", attr, attr));
    w("[?v ...]", &format!("[:c/p {} ?v]", attr));
    w("?a ?v", "[:c/p ?a ?v] [?a :db/ident :c/a]");
    w("(pull ?e [*])", &format!("[?e {} {}]", attr, a));
    w("?e ?i", &format!("[?e {} {}] [?e :db/ident ?i]", attr, b));
    q.push(format!("[:find ?e ?v :where [?e {} ?v] [:c/p {} ?v] :order (desc ?v) :limit 3]", attr, attr));
    if ["long", "double", "instant"].contains(&k.ty) {
        q.push(format!("[:find ?v :where [:c/p {} ?v] [(> ?v {})]]", attr, a));
        q.push(format!("[:find ?v ?w :where [:c/p {} ?v] [:c/q {} ?w] [(!= ?v ?w)]]", attr, attr));
        q.push(format!("[:find ?e :where [?e {} {}] [?e {} ?v] [(< ?v {})]]", attr, a, attr, b));
    }
    if k.ty == "ref" {
        q.push(format!("[:find ?i :where [:c/p {} ?v] [?v :db/ident ?i]]", attr));
        q.push(format!("[:find ?v ?w :where [:c/p {} ?v] [?v {} ?w]]", attr, attr));
        q.push(format!("[:find ?e :where [?e {} {}]]", attr, p));
    }
    q
}

fn norm(r: Result<mentat::QueryResults, String>) -> Result<String, ()> {
    use mentat::QueryResults::*;
    let mut rows: Vec<String> = match r {
        // The wording of an error is not an answer.
        Err(_) => return Err(()),
        Ok(Rel(r)) => r.into_iter().map(|x| format!("{:?}", x)).collect(),
        Ok(Coll(c)) => c.into_iter().map(|x| format!("{:?}", x)).collect(),
        Ok(x) => vec![format!("{:?}", x)],
    };
    rows.sort();
    Ok(rows.join("\n"))
}

struct C<'c> {
    ctx: &'c Ctx,
    kind: &'c Kind,
    steps: Vec<Step>,
}

/// The attribute's current name: it may have been renamed.
fn name_of(s: &mentat_core::Schema) -> Option<&'static str> {
    [(":c/a", "c/a"), (":c/c", "c/c")].iter().find(|(_, k)| s.get_entid(&kw(k)).is_some()).map(|x| x.0)
}

impl<'c> C<'c> {
    /// `cached` and `plain` answer a query with and without caches.
    fn compare(&self, schema: &mentat_core::Schema, cached: &dyn Fn(&str) -> Result<mentat::QueryResults, String>, plain: &dyn Fn(&str) -> Result<mentat::QueryResults, String>, look: &dyn Fn(i64, &str) -> (Result<Vec<mentat::TypedValue>, String>, Result<Option<mentat::TypedValue>, String>)) -> Result<(), String> {
        let id = |s: &str| -> Option<i64> { schema.get_entid(&kw(s)).map(|e| e.into()) };
        let p = match id("c/p") {
            Some(p) => p,
            None => return Err("lost :c/p".into()),
        };
        let attr = match name_of(schema) {
            Some(a) => a,
            None => return Err("lost :c/a".into()),
        };
        for q in queries(self.kind, attr, p) {
            self.ctx.eval(2);
            let (a, b) = (norm(guard(|| cached(&q)).and_then(|x| x)), norm(guard(|| plain(&q)).and_then(|x| x)));
            self.ctx.outcome(&b);
            if a != b {
                return Err(format!("{}\nwith caches:\n{:?}\nwithout:\n{:?}", q, a, b));
            }
        }
        for e in ["c/p", "c/q", "c/r"].iter() {
            for a in [attr, ":c/b"].iter() {
                self.ctx.eval(1);
                let want = match plain(&format!("[:find [?v ...] :where [:{} {} ?v]]", e, a)) {
                    Ok(mentat::QueryResults::Coll(v)) => v.into_iter().filter_map(|b| b.into_scalar()).collect::<Vec<_>>(),
                    x => return Err(format!("unexpected answer {:?}", x)),
                };
                let mut want_s: Vec<String> = want.iter().map(|v| format!("{:?}", v)).collect();
                want_s.sort();
                let (many, one) = guard(|| look(id(e).unwrap(), &a[1..])).map_err(|p| format!("lookup of {} {}: {}", e, a, p))?;
                let mut many = many.map_err(|x| format!("lookup_values of {} {}: {}", e, a, x))?.iter().map(|v| format!("{:?}", v)).collect::<Vec<_>>();
                many.sort();
                let one = one.map_err(|x| format!("lookup_value of {} {}: {}", e, a, x))?;
                if many != want_s || one.is_some() == want.is_empty() || one.iter().any(|v| !want.contains(v)) {
                    return Err(format!("lookup of {} {}\nlookup_values: {:?}\nlookup_value: {:?}\nquery without caches: {:?}", e, a, many, one, want_s));
                }
            }
        }
        Ok(())
    }

    fn check_ip(&self, ip: &mut InProgress<'_, '_>) -> Result<(), String> {
        use std::cell::RefCell;
        let schema = ip.schema.clone();
        let ip = RefCell::new(ip);
        let q = |s: &str, yes: bool| {
            let mut ip = ip.borrow_mut();
            ip.use_caching(yes);
            let r = ip.q_once(s, None).map(|x| x.results).map_err(|e| format!("{}", e));
            ip.use_caching(true);
            r
        };
        self.compare(&schema, &|s| q(s, true), &|s| q(s, false), &|e, a| {
            let ip = ip.borrow();
            (ip.lookup_values_for_attribute(e, &kw(a)).map_err(|e| format!("{}", e)), ip.lookup_value_for_attribute(e, &kw(a)).map_err(|e| format!("{}", e)))
        })
    }

    fn check_store(&self, db: &mut Db) -> Result<(), String> {
        let schema = db.conn.current_schema();
        let (sql, conn) = (&db.sql, &db.conn);
        self.compare(
            &schema,
            &|s| conn.q_once(sql, s, None).map(|x| x.results).map_err(|e| format!("{}", e)),
            &|s| conn.q_uncached(sql, s, None).map(|x| x.results).map_err(|e| format!("{}", e)),
            &|e, a| (conn.lookup_values_for_attribute(sql, e, &kw(a)).map_err(|e| format!("{}", e)), conn.lookup_value_for_attribute(sql, e, &kw(a)).map_err(|e| format!("{}", e))),
        )?;
        // What the cache itself says.
        let cache = db.conn.current_cache();
        for a in [&name_of(&schema).unwrap()[1..], "c/b"].iter() {
            let id: i64 = schema.get_entid(&kw(a)).ok_or("lost an attribute")?.into();
            let attribute = schema.attribute_for_entid(id).ok_or("lost an attribute")?;
            let mut truth: BTreeMap<i64, Vec<mentat::TypedValue>> = BTreeMap::new();
            let mut back: BTreeMap<mentat::TypedValue, BTreeSet<i64>> = BTreeMap::new();
            for e in ["c/p", "c/q", "c/r"].iter() {
                truth.insert(schema.get_entid(&kw(e)).ok_or("lost an entity")?.into(), vec![]);
            }
            match db.conn.q_uncached(&db.sql, &format!("[:find ?e ?v :where [?e :{} ?v]]", a), None).map(|x| x.results) {
                Ok(mentat::QueryResults::Rel(r)) => {
                    for row in r.rows() {
                        if let (Some(mentat::TypedValue::Ref(e)), Some(v)) = (row[0].as_scalar(), row[1].as_scalar()) {
                            truth.entry(*e).or_default().push(v.clone());
                            back.entry(v.clone()).or_default().insert(*e);
                        }
                    }
                }
                x => return Err(format!("unexpected answer {:?}", x.map_err(|e| e.to_string()))),
            }
            for (e, want) in truth.iter_mut() {
                self.ctx.eval(1);
                let mut says = if attribute.multival { cache.get_values_for_entid(&schema, id, *e).cloned().unwrap_or_default() } else { cache.get_value_for_entid(&schema, id, *e).cloned().into_iter().collect() };
                says.sort();
                want.sort();
                if says != *want && (cache.is_attribute_cached_forward(id) || !says.is_empty()) {
                    return Err(format!("the cache says that {} of {} is {:?}, the store {:?}", a, e, says, want));
                }
            }
            for (v, want) in &back {
                self.ctx.eval(1);
                let says: BTreeSet<i64> = if attribute.unique.is_some() { cache.get_entid_for_value(id, v).into_iter().collect() } else { cache.get_entids_for_value(id, v).cloned().unwrap_or_default() };
                if says != *want && (cache.is_attribute_cached_reverse(id) || !says.is_empty()) {
                    return Err(format!("the cache says that {} is {:?} of {:?}, the store {:?}", v.clone().into_string().map(|s| s.to_string()).unwrap_or_default(), a, says, want));
                }
            }
        }
        // And in a read.
        let q = format!("[:find ?e ?v :where [?e {} ?v]]", name_of(&schema).unwrap());
        let want = norm(db.conn.q_uncached(&db.sql, q.as_str(), None).map(|x| x.results).map_err(|e| format!("{}", e)));
        let one = format!("[:find ?v :where [:c/p {} ?v]]", name_of(&schema).unwrap());
        let want1 = norm(db.conn.q_uncached(&db.sql, one.as_str(), None).map(|x| x.results).map_err(|e| format!("{}", e)));
        let r = db.conn.begin_read(&mut db.sql).map_err(|e| format!("{}", e))?;
        let got = (norm(r.q_once(q.as_str(), None).map(|x| x.results).map_err(|e| format!("{}", e))), norm(r.q_once(one.as_str(), None).map(|x| x.results).map_err(|e| format!("{}", e))));
        if got != (want.clone(), want1.clone()) {
            return Err(format!("in a read: {:?}, without caches {:?}", got, (want, want1)));
        }
        Ok(())
    }

    /// Run a block. Inside of it, its last state is checked if `check`.
    fn run(&self, db: &mut Db, b: &Block, check: bool) -> Result<(), String> {
        if b.1 == End::Store {
            match &self.steps[b.0[0]] {
                Step::Tx(s) | Step::Saved(s) => {
                    let _ = db.transact(s);
                }
                Step::Cache(d, act, a) => {
                    let schema = db.conn.current_schema();
                    let (sql, conn) = (&mut db.sql, &mut db.conn);
                    let r = guard(|| conn.cache(sql, &schema, &kw(a), d.clone(), act.clone()));
                    match r {
                        Ok(Err(e)) if schema.get_entid(&kw(a)).is_some() => return Err(format!("the cache: {}", e)),
                        _ => (),
                    }
                }
            }
            return Ok(());
        }
        let (sql, conn) = (&mut db.sql, &mut db.conn);
        guard(|| {
            let mut ip = conn.begin_transaction(sql).map_err(|e| format!("begin: {}", e))?;
            for i in &b.0 {
                match &self.steps[*i] {
                    Step::Tx(s) => {
                        let _ = ip.transact(s.as_str());
                    }
                    Step::Saved(s) => {
                        ip.savepoint("mine").map_err(|e| format!("savepoint: {}", e))?;
                        let _ = ip.transact(s.as_str());
                        ip.rollback_savepoint("mine").map_err(|e| format!("rollback_savepoint: {}", e))?;
                        ip.release_savepoint("mine").map_err(|e| format!("release_savepoint: {}", e))?;
                    }
                    Step::Cache(d, act, a) => {
                        let known = ip.get_entid(&kw(a)).is_some();
                        let r = ip.cache(&kw(a), d.clone(), act.clone());
                        if known {
                            r.map_err(|e| format!("the cache: {}", e))?;
                        }
                    }
                }
            }
            if check {
                self.check_ip(&mut ip).map_err(|e| format!("inside the transaction: {}", e))?;
            }
            match b.1 {
                End::Commit => ip.commit().map_err(|e| format!("commit: {}", e)),
                End::Rollback => ip.rollback().map_err(|e| format!("rollback: {}", e)),
                _ => Ok(drop(ip)),
            }
        })
        .and_then(|x| x)
    }
}

/// A store and how it came about: caches do not survive copying.
struct Hist<'c> {
    c: &'c C<'c>,
    blocks: &'c [Block],
    base: Arc<Mutex<Db>>,
    path: Vec<usize>,
    db: Db,
}

impl<'c> St for Hist<'c> {
    fn fork(&self) -> Self {
        let mut db = self.base.lock().unwrap().fork();
        for b in &self.path {
            let _ = self.c.run(&mut db, &self.blocks[*b], false);
        }
        Hist { c: self.c, blocks: self.blocks, base: self.base.clone(), path: self.path.clone(), db }
    }
}

fn block_name(c: &C, b: &Block) -> String {
    let s = b.0.iter().map(|i| c.steps[*i].name()).collect::<Vec<_>>().join("; ");
    match b.1 {
        End::Store => s,
        End::Commit => format!("begin; {}; commit", s),
        End::Rollback => format!("begin; {}; rollback", s),
        End::Drop => format!("begin; {}; drop", s),
    }
}

fn search(c: &C, name: &str, blocks: &[Block], depth: usize) {
    let db = base(c.kind);
    let st = Hist { c, blocks, db: db.fork(), base: Arc::new(Mutex::new(db)), path: vec![] };
    let key = |db: &Db| -> (BTreeSet<String>, String) {
        let tx = db.entid("db/txInstant");
        (db.datoms().keys().filter(|d| d.1 != tx).map(|d| format!("{:?}", d)).collect(), format!("{:?}", db.conn.current_cache()))
    };
    let k0 = key(&st.db);
    let s = Search { name: &format!("{}-{}", c.kind.name, name), nops: blocks.len(), depth, op_name: &|i| block_name(c, &blocks[i]) };
    explore(
        c.ctx,
        &s,
        &st,
        k0,
        |h, b| {
            h.path.push(b);
            let _ = c.run(&mut h.db, &blocks[b], false);
        },
        |h, b| {
            // Inside, once for each sequence of steps.
            c.run(&mut h.db, &blocks[b], blocks[b].1 == End::Commit)?;
            c.check_store(&mut h.db)?;
            Ok(Some(key(&h.db)))
        },
    );
}

pub fn run(ctx: &Ctx) {
    for kind in &kinds() {
        let c = C { ctx, kind, steps: steps(kind) };
        let n = c.steps.len();
        let quick = ["long-one", "ref-many-value", "string-many", "keyword-one-id"].contains(&kind.name);
        if ctx.thorough {
            search(&c, "deep", &blocks(n, 3), 1);
            search(&c, "pairs", &blocks(n, 2), 2);
            search(&c, "chains", &blocks(n, 1), 4);
        } else if quick {
            search(&c, "pairs", &blocks(n, 2), 1);
            search(&c, "chains", &blocks(n, 1), 2);
        } else {
            search(&c, "chains", &blocks(n, 1), 1);
        }
        if !ctx.thorough {
            // Registrations, assertions and retractions on the store.
            search(&c, "plain", &(0..12).map(|i| (vec![i], End::Store)).collect::<Vec<_>>(), 3);
        }
        if ctx.too_many() {
            break;
        }
    }
}
