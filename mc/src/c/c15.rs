//! C15: readers see snapshots, writers see themselves, and transactions are serial.
use crate::c::c07::coherent;
use crate::c::c10::val;
use crate::db::*;
use crate::h::*;
use crate::val::{kw, V};
use crate::vfs::*;
use mentat::{CacheDirection, HasSchema, QueryResults, Queryable};
use mentat_transaction::{CacheAction, InProgress, InProgressRead, Pullable};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::time::Duration;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every interleaving of the steps of every pair (thorough: and every triple of a shorter list) of client programs of a list, each client a store of its own on the same file: reads begun, queried and ended, cached and not; transactions begun, transacted in, queried, committed and given up; opening; caching; queries outside; everything observed (queries, prepared queries, lookups, pull, schema) at every query step must be one committed state, the right one; and every interleaving, down to single calls of SQLite on the file and with at most 1 (thorough: 2) preemptions, of two threads running whole programs, which must come out as one after the other",
        bounds: "23 programs of 3 to 7 steps, 2 clients, 2 start states (log and no log); thorough: also 3 clients with 6 programs of 2 or 3 steps; at file-call level 11 programs, 2 threads, 3 start states (also no store yet)",
        assumptions: vec!["queries outside of a read or transaction know the schema and the cached values as of the last time the store began a read or a transaction", "no busy handler in the first part: a second writer gets its error at once"],
    }
}

// ---------------------------------------------------------------- the model

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
struct M {
    items: BTreeSet<String>,
    one: Option<String>,
    many: BTreeSet<i64>,
    u: BTreeMap<String, BTreeSet<i64>>,
    /// Attributes added, with their values.
    new: BTreeMap<String, BTreeSet<String>>,
    ft: Option<String>,
    txs: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum T {
    Item,
    One,
    Many,
    Upsert,
    Attr,
    Use,
    Big,
    Refused,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum S {
    Open,
    Read,
    Uncached,
    Write,
    Do(T),
    /// The whole of a transaction.
    Tx(T),
    Savepoint,
    RollbackTo,
    Query,
    Commit,
    Drop,
    Cache,
    Close,
}

struct Ids {
    e1: i64,
}

fn tx_text(t: T, label: &str, n: i64, c: usize, ids: &Ids) -> String {
    match t {
        T::Item => format!("[{{:t/l \"{}\"}}]", label),
        T::One => format!("[[:db/add {} :t/one \"{}\"] [:db/add {} :t/ft \"{} word\"]]", ids.e1, label, ids.e1, label),
        T::Many => format!("[[:db/add {} :t/many {}]]", ids.e1, n),
        T::Upsert => format!("[{{:t/u \"k\" :t/many {}}}]", n),
        T::Attr => format!("[{{:db/ident :t/new{} :db/valueType :db.type/string :db/cardinality :db.cardinality/many}}]", c),
        T::Use => format!("[[:db/add {} :t/new{} \"{}\"]]", ids.e1, c, label),
        T::Big => format!("[{}]", (0..150).map(|i| format!("{{:t/l \"{}-{}{}\"}}", label, i, "x".repeat(200))).collect::<String>()),
        T::Refused => format!("[{{:t/l \"{}\"}} [:db/add {} :t/one 5]]", label, ids.e1),
    }
}

/// What a transaction does; false when it is refused.
fn apply(m: &mut M, t: T, label: &str, n: i64, c: usize) -> bool {
    let a = format!("t/new{}", c);
    match t {
        T::Item => {
            m.items.insert(label.into());
        }
        T::One => {
            m.one = Some(label.into());
            m.ft = Some(format!("{} word", label));
        }
        T::Many => {
            m.many.insert(n);
        }
        T::Upsert => {
            m.u.entry("k".into()).or_default().insert(n);
        }
        T::Attr => {
            m.new.entry(a).or_default();
        }
        T::Use => match m.new.get_mut(&a) {
            Some(s) => {
                s.insert(label.into());
            }
            None => return false,
        },
        T::Big => {
            for i in 0..150 {
                m.items.insert(format!("{}-{}{}", label, i, "x".repeat(200)));
            }
        }
        T::Refused => return false,
    }
    m.txs += 1;
    true
}

// ---------------------------------------------------------------- observing

fn rel<Q: Queryable>(q: &Q, text: &str, un: bool) -> Result<Vec<Vec<V>>, String> {
    let _ = un;
    let r = q.q_once(text, None);
    rows(r.map_err(|e| format!("{}: {}", text, e))?.results)
}
fn rows(r: QueryResults) -> Result<Vec<Vec<V>>, String> {
    Ok(match r {
        QueryResults::Rel(r) => r.rows().map(|r| r.iter().map(val).collect()).collect(),
        QueryResults::Scalar(s) => s.iter().map(|b| vec![val(b)]).collect(),
        x => return Err(format!("odd result {:?}", x)),
    })
}
fn text(v: &V) -> String {
    match v {
        V::Str(s) => s.clone(),
        v => format!("{:?}", v),
    }
}
fn num(v: &V) -> i64 {
    match v {
        V::Long(l) => *l,
        _ => -99,
    }
}

/// Everything seen by one client at one moment. `schema`: the attributes it says there are.
fn observe<Q: Queryable + Pullable>(q: &Q, schema: &mentat::Schema, ids: &Ids, un: bool) -> Result<M, String> {
    let mut m = M::default();
    let items = rel(q, "[:find ?e ?v :where [?e :t/l ?v]]", un)?;
    let es: BTreeSet<V> = items.iter().map(|r| r[0].clone()).collect();
    m.items = items.iter().map(|r| text(&r[1])).collect();
    if es.len() != items.len() || m.items.len() != items.len() {
        return Err(format!("{} rows, {} entities, {} items", items.len(), es.len(), m.items.len()));
    }
    {
        let again = match q.q_prepare("[:find ?e ?v :where [?e :t/l ?v]]", None).map_err(|e| e.to_string())?.run(None) {
            Ok(o) => rows(o.results)?,
            Err(e) => return Err(e.to_string()),
        };
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (again.into_iter().collect(), items.into_iter().collect());
        if a != b {
            return Err(format!("prepared: {:?}, once: {:?}", a, b));
        }
    }
    let one = rel(q, &format!("[:find ?v :where [{} :t/one ?v]]", ids.e1), un)?;
    m.one = one.first().map(|r| text(&r[0]));
    if !un {
        let l = q.lookup_value_for_attribute(ids.e1, &kw("t/one")).map_err(|e| e.to_string())?.map(|v| text(&V::from_typed(&v)));
        if l != m.one || one.len() > 1 {
            return Err(format!("looked up :t/one: {:?}, queried: {:?}", l, one));
        }
    }
    m.many = rel(q, &format!("[:find ?v :where [{} :t/many ?v]]", ids.e1), un)?.iter().map(|r| num(&r[0])).collect();
    if !un {
        let l: BTreeSet<i64> = q.lookup_values_for_attribute(ids.e1, &kw("t/many")).map_err(|e| e.to_string())?.iter().map(|v| num(&V::from_typed(v))).collect();
        if l != m.many {
            return Err(format!("looked up :t/many: {:?}, queried: {:?}", l, m.many));
        }
    }
    for r in rel(q, "[:find ?k ?m :where [?e :t/u ?k] [?e :t/many ?m]]", un)? {
        m.u.entry(text(&r[0])).or_default().insert(num(&r[1]));
    }
    let ft = rel(q, "[:find ?v :where [(fulltext $ :t/ft \"word\") [[?e ?v]]]]", un)?;
    m.ft = ft.first().map(|r| text(&r[0]));
    if ft.len() > 1 {
        return Err(format!("fulltext: {:?}", ft));
    }
    for c in 0..3 {
        let n = format!("t/new{}", c);
        if schema.attribute_for_ident(&kw(&n)).is_some() {
            let s = m.new.entry(n.clone()).or_default();
            for r in rel(q, &format!("[:find ?v :where [_ :{} ?v]]", n), un)? {
                s.insert(text(&r[0]));
            }
        }
    }
    m.txs = num(&rel(q, "[:find (count ?tx) . :where [?tx :db/txInstant]]", un)?[0][0]) as usize;
    // Pull.
    let (a1, a2): (i64, i64) = (schema.get_entid(&kw("t/one")).ok_or("no :t/one")?.into(), schema.get_entid(&kw("t/many")).ok_or("no :t/many")?.into());
    let p = q.pull_attributes_for_entity(ids.e1, vec![a1, a2]).map_err(|e| e.to_string())?;
    let want = (m.one.clone(), m.many.clone());
    let got = (
        p.0.get(&kw("t/one")).map(|b| text(&val(b))),
        match p.0.get(&kw("t/many")) {
            None => BTreeSet::new(),
            Some(mentat::Binding::Vec(v)) => v.iter().map(|b| num(&val(b))).collect(),
            Some(b) => return Err(format!("pulled {:?}", b)),
        },
    );
    if got != want {
        return Err(format!("pulled {:?}, queried {:?}", got, want));
    }
    Ok(m)
}

/// A store outside of reads and transactions.
struct Outside<'a>(&'a Db, bool);
impl<'a> Queryable for Outside<'a> {
    fn q_explain<T>(&self, q: &str, i: T) -> Result<mentat::QueryExplanation, mentat::MentatError>
    where
        T: Into<Option<mentat::QueryInputs>>,
    {
        self.0.conn.q_explain(&self.0.sql, q, i)
    }
    fn q_once<T>(&self, q: &str, i: T) -> Result<mentat::QueryOutput, mentat::MentatError>
    where
        T: Into<Option<mentat::QueryInputs>>,
    {
        if self.1 {
            self.0.conn.q_uncached(&self.0.sql, q, i)
        } else {
            self.0.conn.q_once(&self.0.sql, q, i)
        }
    }
    fn q_prepare<T>(&self, q: &str, i: T) -> mentat::query::PreparedResult<'_>
    where
        T: Into<Option<mentat::QueryInputs>>,
    {
        self.0.conn.q_prepare(&self.0.sql, q, i)
    }
    fn lookup_values_for_attribute<E>(&self, e: E, a: &mentat::Keyword) -> Result<Vec<mentat::TypedValue>, mentat::MentatError>
    where
        E: Into<mentat::Entid>,
    {
        self.0.conn.lookup_values_for_attribute(&self.0.sql, e.into(), a)
    }
    fn lookup_value_for_attribute<E>(&self, e: E, a: &mentat::Keyword) -> Result<Option<mentat::TypedValue>, mentat::MentatError>
    where
        E: Into<mentat::Entid>,
    {
        self.0.conn.lookup_value_for_attribute(&self.0.sql, e.into(), a)
    }
}
impl<'a> Pullable for Outside<'a> {
    fn pull_attributes_for_entities<E, A>(&self, e: E, a: A) -> Result<BTreeMap<mentat::Entid, edn::ValueRc<mentat::StructuredMap>>, mentat::MentatError>
    where
        E: IntoIterator<Item = mentat::Entid>,
        A: IntoIterator<Item = mentat::Entid>,
    {
        self.0.conn.pull_attributes_for_entities(&self.0.sql, e, a)
    }
    fn pull_attributes_for_entity<A>(&self, e: mentat::Entid, a: A) -> Result<mentat::StructuredMap, mentat::MentatError>
    where
        A: IntoIterator<Item = mentat::Entid>,
    {
        self.0.conn.pull_attributes_for_entity(&self.0.sql, e, a)
    }
}

// ---------------------------------------------------------------- clients

enum Ip {
    None,
    R(InProgressRead<'static, 'static>),
    W(InProgress<'static, 'static>),
}

/// Fields are dropped in order: the transaction before the store it borrows.
struct Client {
    ip: Ip,
    db: Option<Box<Db>>,
    /// Committed states (by index) the snapshot of a read may be: from its beginning on.
    snap: Option<(usize, Option<usize>)>,
    /// The state a transaction in progress sees, and the one at its savepoint.
    mine: Option<M>,
    save: Option<M>,
    /// The committed state this store has last caught up with.
    known: usize,
    cached: bool,
    gave_up: bool,
}

impl Client {
    fn open(&mut self, uri: &str) -> Result<(), String> {
        let db = Db::open(uri)?;
        db.sql.busy_timeout(Duration::from_millis(0)).map_err(|e| e.to_string())?;
        self.db = Some(Box::new(db));
        Ok(())
    }
    /// The store, for as long as nothing else of the client uses it.
    fn raw(&mut self) -> (&'static mut rusqlite::Connection, &'static mut mentat::Conn) {
        let p: *mut Db = &mut **self.db.as_mut().expect("open");
        // The box does not move and outlives `ip`.
        unsafe { (&mut (*p).sql, &mut (*p).conn) }
    }
}

struct Run<'a> {
    ids: &'a Ids,
    uri: String,
    states: Vec<M>,
    clients: Vec<Client>,
    writer: Option<usize>,
}

impl<'a> Run<'a> {
    fn step(&mut self, c: usize, i: usize, s: S) -> Result<(), String> {
        let label = format!("c{}s{}", c, i);
        let n = (c * 10 + i) as i64;
        let last = self.states.len() - 1;
        let uri = self.uri.clone();
        let ids = self.ids;
        let other_writes = self.writer.map_or(false, |w| w != c);
        let states = &mut self.states;
        let cl = &mut self.clients[c];
        if cl.gave_up {
            return Ok(());
        }
        if cl.db.is_none() && s != S::Open {
            cl.open(&uri)?;
            cl.known = last;
        }
        match s {
            S::Open => {
                cl.ip = Ip::None;
                cl.db = None;
                cl.open(&uri).map_err(|e| format!("cannot open: {}", e))?;
                cl.known = last;
                cl.cached = false;
            }
            S::Close => {
                cl.ip = Ip::None;
                cl.db = None;
            }
            S::Read | S::Uncached => {
                let (sql, conn) = cl.raw();
                let r = if s == S::Read { conn.begin_read(sql) } else { conn.begin_uncached_read(sql) };
                cl.ip = Ip::R(r.map_err(|e| format!("cannot begin a read: {}", e))?);
                cl.snap = Some((last, None));
                cl.known = last;
            }
            S::Write => {
                let (sql, conn) = cl.raw();
                match (conn.begin_transaction(sql), other_writes) {
                    (Ok(_), true) => return Err("two transactions at once".into()),
                    (Ok(w), false) => {
                        cl.ip = Ip::W(w);
                        cl.mine = Some(states[last].clone());
                        cl.known = last;
                        self.writer = Some(c);
                    }
                    (Err(_), true) => cl.gave_up = true,
                    (Err(e), false) => return Err(format!("cannot begin a transaction: {}", e)),
                }
            }
            S::Do(t) => {
                let m = cl.mine.as_mut().unwrap();
                let mut after = m.clone();
                let ok = apply(&mut after, t, &label, n, c);
                match &mut cl.ip {
                    Ip::W(w) => match (w.transact(tx_text(t, &label, n, c, ids).as_str()), ok) {
                        (Ok(_), true) => *m = after,
                        (Err(_), false) => {}
                        (Ok(_), false) => return Err(format!("{:?} must be refused", t)),
                        (Err(e), true) => return Err(format!("{:?} is refused: {}", t, e)),
                    },
                    _ => unreachable!(),
                }
            }
            S::Tx(t) => {
                let (sql, conn) = cl.raw();
                let mut after = states[last].clone();
                let ok = apply(&mut after, t, &label, n, c) && !other_writes;
                match (conn.transact(sql, tx_text(t, &label, n, c, ids)), ok) {
                    (Ok(_), true) => {
                        states.push(after);
                        cl.known = last + 1;
                    }
                    (Err(_), false) => {
                        if !other_writes {
                            cl.known = last;
                        }
                    }
                    (Ok(_), false) => return Err(format!("{:?} must be refused", t)),
                    (Err(e), true) => return Err(format!("{:?} is refused: {}", t, e)),
                }
            }
            S::Savepoint => {
                if let Ip::W(w) = &mut cl.ip {
                    w.savepoint("p").map_err(|e| e.to_string())?;
                    cl.save = cl.mine.clone();
                }
            }
            S::RollbackTo => {
                if let Ip::W(w) = &mut cl.ip {
                    w.rollback_savepoint("p").map_err(|e| e.to_string())?;
                    cl.mine = cl.save.clone();
                }
            }
            S::Commit => {
                if let Ip::W(w) = std::mem::replace(&mut cl.ip, Ip::None) {
                    w.commit().map_err(|e| format!("cannot commit: {}", e))?;
                    let m = cl.mine.take().unwrap();
                    states.push(m);
                    cl.known = last + 1;
                    self.writer = None;
                    let db = cl.db.as_ref().unwrap();
                    let parts = mentat_db::db::read_partition_map(&db.sql).map_err(|e| e.to_string())?;
                    if db.conn.last_tx_id() != parts[":db.part/tx"].next_entid() - 1 {
                        return Err(format!("last_tx_id is {}, the file says {}", db.conn.last_tx_id(), parts[":db.part/tx"].next_entid() - 1));
                    }
                }
            }
            S::Drop => {
                if let Ip::W(_) = &cl.ip {
                    self.writer = None;
                }
                cl.ip = Ip::None;
                cl.mine = None;
                cl.snap = None;
            }
            S::Cache => {
                let (sql, conn) = cl.raw();
                let schema = conn.current_schema();
                for a in ["t/one", "t/many", "t/l"] {
                    conn.cache(sql, &schema, &kw(a), CacheDirection::Both, CacheAction::Register).map_err(|e| e.to_string())?;
                }
                cl.cached = true;
            }
            S::Query => match &cl.ip {
                Ip::W(w) => {
                    let got = observe(w, &w.schema, ids, false)?;
                    if Some(&got) != cl.mine.as_ref() {
                        return Err(format!("the transaction sees {:?}\nshould see {:?}", got, cl.mine));
                    }
                }
                Ip::R(r) => {
                    // (Cached or not, a read sees one state.)
                    let got = observe(r, r_schema(r), ids, false)?;
                    let (from, fixed) = cl.snap.unwrap();
                    let ok: Vec<usize> = match fixed {
                        Some(f) => vec![f],
                        None => (from..=last).collect(),
                    };
                    match ok.iter().find(|s| states[**s] == got) {
                        None => return Err(format!("the read sees {:?}\nthe committed state is {:?}", got, ok.iter().map(|s| &states[*s]).collect::<Vec<_>>())),
                        Some(s) => cl.snap = Some((from, Some(*s))),
                    }
                }
                Ip::None => {
                    let (cached, known) = (cl.cached, cl.known);
                    let db = cl.db.as_ref().unwrap();
                    let schema = db.conn.current_schema();
                    let un = observe_outside(db, &schema, ids, true)?;
                    // The schema it knows.
                    let want = |s: usize| {
                        let mut m = states[last].clone();
                        let k = &states[s].new;
                        m.new.retain(|a, _| k.contains_key(a));
                        m
                    };
                    if !(known..=last).any(|s| want(s) == un) {
                        return Err(format!("outside, it sees {:?}\nthe committed state is {:?}", un, states[last]));
                    }
                    if !cached {
                        let on = observe_outside(db, &schema, ids, false)?;
                        if on != un {
                            return Err(format!("outside, it sees {:?} and, not using the caches, {:?}", on, un));
                        }
                    } else {
                        let one = db.conn.lookup_value_for_attribute(&db.sql, ids.e1, &kw("t/one")).map_err(|e| e.to_string())?.map(|v| text(&V::from_typed(&v)));
                        if !states[known..=last].iter().any(|m| m.one == one) {
                            return Err(format!("outside, the cache has :t/one {:?}", one));
                        }
                    }
                }
            },
        }
        Ok(())
    }
}

fn r_schema<'r>(r: &'r InProgressRead<'static, 'static>) -> &'r mentat::Schema {
    &r.in_progress.schema
}

fn observe_outside(db: &Db, schema: &mentat::Schema, ids: &Ids, un: bool) -> Result<M, String> {
    observe(&Outside(db, un), schema, ids, un)
}

// ---------------------------------------------------------------- programs and schedules

fn programs() -> Vec<Vec<S>> {
    use self::S::*;
    use self::T as X;
    vec![
        vec![Read, Query, Query, Drop, Query],
        vec![Uncached, Query, Query, Drop],
        vec![Read, Query, Drop, Read, Query, Drop],
        vec![Query, Query, Query],
        vec![Write, Do(X::Item), Query, Commit, Query],
        vec![Write, Do(X::Item), Query, Drop, Query],
        vec![Write, Do(X::One), Query, Commit],
        vec![Write, Do(X::One), Query, Drop],
        vec![Write, Do(X::Upsert), Do(X::Many), Query, Commit],
        vec![Write, Do(X::Attr), Do(X::Use), Query, Commit, Query],
        vec![Write, Do(X::Attr), Do(X::Use), Drop, Query],
        vec![Tx(X::Item), Tx(X::One), Query],
        vec![Tx(X::Attr), Tx(X::Use), Query],
        vec![Tx(X::Upsert), Read, Query, Drop],
        vec![Read, Query, Drop, Tx(X::Item), Query],
        vec![Write, Do(X::Big), Query, Commit],
        vec![Tx(X::Big), Tx(X::One), Query],
        vec![Write, Savepoint, Do(X::One), RollbackTo, Query, Commit],
        vec![Write, Do(X::Item), Do(X::Refused), Drop],
        vec![Open, Query, Tx(X::Item), Close],
        vec![Cache, Query, Read, Query, Drop, Query],
        vec![Cache, Tx(X::One), Write, Do(X::Many), Query, Commit],
        vec![Cache, Uncached, Query, Query, Drop],
    ]
}

fn short_programs() -> Vec<Vec<S>> {
    use self::S::*;
    use self::T as X;
    vec![
        vec![Read, Query, Query],
        vec![Write, Do(X::One), Commit],
        vec![Tx(X::Item), Query],
        vec![Tx(X::Attr), Tx(X::Use)],
        vec![Cache, Tx(X::Many), Query],
        vec![Write, Do(X::Upsert), Drop],
    ]
}

/// All interleavings of sequences of the given lengths.
fn interleavings(lens: &[usize]) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for c in 0..left.len() {
            if left[c] > 0 {
                left[c] -= 1;
                cur.push(c);
                go(left, cur, out);
                cur.pop();
                left[c] += 1;
            }
        }
    }
    let mut out = vec![];
    go(&mut lens.to_vec(), &mut vec![], &mut out);
    out
}

/// Neither step changes anything the other client could see, nor anything the step of the other
/// client could depend on: a read begun, queried or ended.
fn reading(prog: &[S], i: usize) -> bool {
    match prog[i] {
        S::Query | S::Read | S::Uncached => true,
        S::Drop => !prog[..i].iter().rev().take_while(|s| **s != S::Commit && **s != S::Drop).any(|s| *s == S::Write),
        _ => false,
    }
}

/// Of two orders of two adjacent independent steps, one is enough.
fn canonical(progs: &[&Vec<S>], order: &[usize]) -> bool {
    let mut pc = vec![0; progs.len()];
    for k in 0..order.len() {
        if k + 1 < order.len() && order[k] > order[k + 1] && reading(progs[order[k]], pc[order[k]]) && reading(progs[order[k + 1]], pc[order[k + 1]]) {
            return false;
        }
        pc[order[k]] += 1;
    }
    true
}

struct Start {
    name: &'static str,
    image: Image,
    m: M,
    ids: Ids,
}

fn starts() -> Vec<Start> {
    let disk = DiskRef::new(&Image::new());
    let mut db = Db::open(&disk.uri()).expect("open");
    db.must("[{:db/ident :t/l :db/valueType :db.type/string :db/cardinality :db.cardinality/one} {:db/ident :t/one :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true} {:db/ident :t/many :db/valueType :db.type/long :db/cardinality :db.cardinality/many} {:db/ident :t/u :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/unique :db.unique/identity} {:db/ident :t/ft :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true}]");
    let r = db.must("[[:db/add \"e\" :t/one \"first\"] [:db/add \"e\" :t/many 1] [:db/add \"i\" :t/l \"item\"]]");
    let e1 = r.tempids["e"];
    let m = M { items: std::iter::once("item".to_string()).collect(), one: Some("first".into()), many: std::iter::once(1).collect(), txs: 3, ..M::default() };
    let wal = disk.image();
    drop(db);
    vec![Start { name: "closed", image: disk.image(), m: m.clone(), ids: Ids { e1 } }, Start { name: "log", image: wal, m, ids: Ids { e1 } }]
}

/// What is in the file when everyone is done.
fn finished(image: &Image, want: &M, ids: &Ids) -> Result<(), String> {
    let d = DiskRef::new(image);
    let db = Db::open(&d.uri()).map_err(|e| format!("cannot open the file: {}", e))?;
    let got = observe_outside(&db, &db.conn.current_schema(), ids, false)?;
    if got != *want {
        return Err(format!("in the end, the file has {:?}\nthe committed state is {:?}", got, want));
    }
    coherent(&db)?;
    whole_log(&db, want.txs)
}

/// The log makes the datoms, and every transaction is its own.
fn whole_log(db: &Db, n: usize) -> Result<(), String> {
    let log = db.log();
    let txs: BTreeSet<i64> = log.iter().map(|r| r.0).collect();
    if txs.len() != n {
        return Err(format!("{} transactions in the log, {} were committed", txs.len(), n));
    }
    let mut now: BTreeMap<Datom, i64> = BTreeMap::new();
    for tx in &txs {
        for added in [false, true] {
            for (_, e, a, v, _) in log.iter().filter(|r| r.0 == *tx && r.4 == added) {
                let k = (*e, *a, v.clone());
                if added {
                    now.insert(k, *tx);
                } else {
                    now.remove(&k);
                }
            }
        }
    }
    if now != db.datoms() {
        return Err("in the end, the log does not make the datoms".into());
    }
    Ok(())
}

fn schedule(ctx: &Ctx, st: &Start, progs: &[&Vec<S>], order: &[usize]) -> Result<(), String> {
    let disk = DiskRef::new(&st.image);
    let mut run = Run {
        ids: &st.ids,
        uri: disk.uri(),
        states: vec![st.m.clone()],
        clients: progs.iter().map(|_| Client { ip: Ip::None, db: None, snap: None, mine: None, save: None, known: 0, cached: false, gave_up: false }).collect(),
        writer: None,
    };
    // Every client has its store open, except one that opens it itself.
    for c in 0..progs.len() {
        if progs[c][0] != S::Open {
            let u = disk.uri();
            run.clients[c].open(&u)?;
        }
    }
    let mut pc = vec![0; progs.len()];
    for c in order {
        let s = progs[*c][pc[*c]];
        ctx.transition(1);
        match guard(|| run.step(*c, pc[*c], s)).and_then(|r| r) {
            Ok(()) => {}
            Err(e) => return Err(format!("at step {} of client {} ({:?}): {}", pc[*c], c, s, e)),
        }
        pc[*c] += 1;
    }
    ctx.outcome(&run.states);
    let last = run.states.last().unwrap().clone();
    drop(run);
    finished(&disk.image(), &last, &st.ids)
}

// ---------------------------------------------------------------- down to single calls

/// What a thread saw: how many of its own transactions it had committed, and what there was.
type Seen = Vec<(usize, M)>;

/// Runs a program to its end; what it cannot do because of the other thread, it tries again.
fn whole(prog: &[S], c: usize, uri: &str, ids: &Ids, open: Option<Db>) -> Result<Seen, String> {
    fn again<R>(what: S, mut f: impl FnMut() -> Result<R, String>) -> Result<R, String> {
        let mut k = 0;
        loop {
            match guard(|| f()).and_then(|r| r) {
                Ok(r) => return Ok(r),
                Err(e) => {
                    if e.starts_with("PANIC") {
                        return Err(format!("{:?}: {}", what, e));
                    }
                    if !e.contains("database is locked") && !e.contains("database table is locked") {
                        return Err(format!("{:?}: {}", what, e));
                    }
                    k += 1;
                    if k > 5 {
                        return Err(format!("{:?} keeps failing: {}", what, e));
                    }
                    blocked();
                }
            }
        }
    }
    let mut db = open;
    let mut seen = vec![];
    let mut own = 0;
    for (i, s) in prog.iter().enumerate() {
        let (label, n) = (format!("c{}s{}", c, i), (c * 10 + i) as i64);
        match s {
            S::Open => {
                db = None;
                db = Some(again(*s, || Db::open(uri))?);
            }
            S::Tx(t) => {
                let d = db.as_mut().unwrap();
                let text = tx_text(*t, &label, n, c, ids);
                again(*s, || d.conn.transact(&mut d.sql, text.as_str()).map_err(|e| e.to_string()))?;
                own += 1;
            }
            S::Read => {
                // Twice the same.
                let d = db.as_mut().unwrap();
                let (a, b) = again(*s, || {
                    let r = d.conn.begin_read(&mut d.sql).map_err(|e| e.to_string())?;
                    let one = |r: &InProgressRead| {
                        let schema = r.in_progress.schema.clone();
                        observe(r, &schema, ids, false)
                    };
                    Ok((one(&r)?, one(&r)?))
                })?;
                if a != b {
                    return Err(format!("a read sees {:?}\nand then {:?}", a, b));
                }
                seen.push((own, a));
            }
            S::Cache => {
                let d = db.as_mut().unwrap();
                again(*s, || {
                    let schema = d.conn.current_schema();
                    for a in ["t/one", "t/many"] {
                        d.conn.cache(&mut d.sql, &schema, &kw(a), CacheDirection::Both, CacheAction::Register).map_err(|e| e.to_string())?;
                    }
                    Ok(())
                })?;
            }
            S::Close => db = None,
            _ => unreachable!(),
        }
    }
    Ok(seen)
}

/// One after the other, in some order: everything seen and what is left.
fn serial(start: &M, progs: &[&Vec<S>], seen: &[Seen], end: &M) -> bool {
    let txs: Vec<Vec<(usize, T)>> = progs.iter().map(|p| p.iter().enumerate().filter_map(|(i, s)| if let S::Tx(t) = s { Some((i, *t)) } else { None }).collect()).collect();
    interleavings(&txs.iter().map(|t| t.len()).collect::<Vec<_>>()).iter().any(|o| {
        let mut states = vec![(vec![0; progs.len()], start.clone())];
        for c in o {
            let (mut done, mut m) = states.last().unwrap().clone();
            let (i, t) = txs[*c][done[*c]];
            done[*c] += 1;
            if !apply(&mut m, t, &format!("c{}s{}", c, i), (c * 10 + i) as i64, *c) {
                return false;
            }
            states.push((done, m));
        }
        states.last().unwrap().1 == *end
            && seen.iter().enumerate().all(|(c, seen)| {
                let mut k = 0;
                seen.iter().all(|(own, m)| {
                    while k < states.len() && !(states[k].0[c] == *own && states[k].1 == *m) {
                        k += 1;
                    }
                    k < states.len()
                })
            })
    })
}

/// The programs of the second part.
fn wholes() -> Vec<(&'static str, Vec<S>)> {
    use self::S::*;
    use self::T as X;
    vec![
        ("new", vec![Open]),
        ("new", vec![Open, Tx(X::Attr)]),
        ("closed", vec![Open, Read]),
        ("closed", vec![Open, Tx(X::Item)]),
        ("closed", vec![Open, Tx(X::Attr), Tx(X::Use)]),
        ("log", vec![Read, Read]),
        ("log", vec![Tx(X::Item), Read]),
        ("log", vec![Tx(X::One), Tx(X::Many)]),
        ("log", vec![Tx(X::Attr), Tx(X::Use)]),
        ("log", vec![Tx(X::Upsert), Read]),
        ("log", vec![Cache, Read, Tx(X::One), Read]),
    ]
}

fn threads(ctx: &Ctx, st: &Start, progs: &[&Vec<S>], switch_at: Vec<u64>) -> Result<(u64, u64), String> {
    let disk = DiskRef::new(&st.image);
    let uri = disk.uri();
    let turns = Turns::new(switch_at);
    let mut open: Vec<Option<Db>> = vec![];
    for p in progs {
        open.push(if p[0] == S::Open { None } else { Some(Db::open(&uri)?) });
    }
    let mut seen = vec![];
    std::thread::scope(|s| {
        let hs: Vec<_> = progs
            .iter()
            .zip(open)
            .enumerate()
            .map(|(c, (p, o))| {
                let (turns, uri) = (turns.clone(), &uri);
                let o = Moved(o);
                s.spawn(move || {
                    let o = o;
                    turns.run(c, || whole(p, c, uri, &st.ids, o.0))
                })
            })
            .collect();
        for (c, h) in hs.into_iter().enumerate() {
            seen.push(h.join().map_err(|_| "panic".to_string()).and_then(|r| r).map_err(|e| format!("thread {}: {}", c, e)));
        }
    });
    ctx.transition(turns.calls().0);
    let seen: Vec<Seen> = seen.into_iter().collect::<Result<_, _>>()?;
    let image = disk.image();
    let d = DiskRef::new(&image);
    let db = Db::open(&d.uri()).map_err(|e| format!("cannot open the file: {}", e))?;
    if st.name == "new" {
        let txs = 1 + progs.iter().map(|p| p.len() - 1).sum::<usize>();
        coherent(&db)?;
        whole_log(&db, txs)?;
        let schema = db.conn.current_schema();
        for (c, p) in progs.iter().enumerate() {
            if (p.len() > 1) != schema.attribute_for_ident(&kw(&format!("t/new{}", c))).is_some() {
                return Err(format!("the attribute of thread {}", c));
            }
        }
        ctx.outcome(&txs);
    } else {
        let end = observe_outside(&db, &db.conn.current_schema(), &st.ids, false)?;
        if !serial(&st.m, progs, &seen, &end) {
            return Err(format!("this is not one after the other:\nin the end: {:?}\nseen: {:?}", end, seen));
        }
        ctx.outcome(&(&seen, &end));
        drop(db);
        finished(&image, &end, &st.ids)?;
    }
    Ok(turns.calls())
}

/// To be used by the thread it is moved to only.
struct Moved(Option<Db>);
unsafe impl Send for Moved {}

fn calls(ctx: &Ctx, sts: &[Start]) {
    let ws = wholes();
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for (k, st) in sts.iter().enumerate() {
        for a in 0..ws.len() {
            for b in 0..ws.len() {
                if ws[a].0 == st.name && ws[b].0 == st.name {
                    jobs.push((k, a, b));
                }
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (k, a, b) = jobs[j];
        let list = [&ws[a].1, &ws[b].1];
        let case = format!("calls|{},{}", a, b);
        if !ctx.want(&case) {
            return;
        }
        // Preemptions, in order of their place; a place past the end is not reached.
        let mut go = |at: Vec<u64>| -> Option<(u64, u64)> {
            let case = format!("{}|{}", case, at.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            if !ctx.want(&case) {
                return Some((u64::MAX, at.len() as u64));
            }
            ctx.trace(1);
            ctx.count("schedules of threads", 1);
            match guard(|| threads(ctx, &sts[k], &list, at)).and_then(|r| r) {
                Ok(n) => Some(n),
                Err(e) => {
                    ctx.violation(format!("C15/{}", case), case, format!("thread 0: {:?}\nthread 1: {:?}\n{}", list[0], list[1], e));
                    None
                }
            }
        };
        if go(vec![]).is_none() {
            return;
        }
        for x in 1.. {
            match go(vec![x]) {
                None => return,
                Some((_, 0)) => break,
                Some((n, _)) => {
                    if ctx.thorough {
                        for y in x + 1..=n {
                            match go(vec![x, y]) {
                                None => return,
                                Some((_, t)) if t < 2 => break,
                                _ => {}
                            }
                        }
                    }
                }
            }
            if ctx.only.is_some() && x > 5000 {
                break;
            }
        }
    });
}

pub fn run(ctx: &Ctx) {
    let progs = programs();
    let n = progs.len();
    let sts = starts();
    let mut jobs: Vec<(usize, Vec<usize>)> = vec![];
    for s in 0..sts.len() {
        for a in 0..n {
            for b in a..n {
                if s == 0 || ctx.thorough {
                    jobs.push((s, vec![a, b]));
                }
            }
        }
    }
    ctx.note("pairs_of_programs", jobs.len().to_string());
    // Three clients.
    let mut progs = progs;
    let short = short_programs();
    if ctx.thorough {
        for a in n..n + short.len() {
            for b in a..n + short.len() {
                for c in b..n + short.len() {
                    jobs.push((0, vec![a, b, c]));
                }
            }
        }
    }
    progs.extend(short);
    let total = Mutex::new(0u64);
    ctx.par(jobs.len(), |j| {
        let (s, ps) = &jobs[j];
        let case = format!("steps|{}|{}", sts[*s].name, ps.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(","));
        if !ctx.want(&case) {
            return;
        }
        let list: Vec<&Vec<S>> = ps.iter().map(|p| &progs[*p]).collect();
        let orders = interleavings(&list.iter().map(|l| l.len()).collect::<Vec<_>>());
        *total.lock().unwrap() += orders.len() as u64;
        for (k, o) in orders.iter().enumerate() {
            // (Two equal programs: the other order of the same thing.)
            if ps.len() == 2 && ps[0] == ps[1] && o[0] == 1 || !canonical(&list, o) {
                continue;
            }
            let case = format!("{}|{}", case, k);
            if !ctx.want(&case) {
                continue;
            }
            ctx.trace(1);
            if let Err(e) = schedule(ctx, &sts[*s], &list, o) {
                ctx.violation(format!("C15/{}", case), case, format!("clients: {:?}\norder: {:?}\n{}", list, o, e));
                return;
            }
        }
    });
    ctx.note("schedules", total.lock().unwrap().to_string());
    let mut sts = sts;
    sts.push(Start { name: "new", image: Image::new(), m: M::default(), ids: Ids { e1: 0 } });
    calls(ctx, &sts);
}
