//! C17: stores that sync through the same server agree, and nothing is lost.
use crate::c::c07::coherent;
use crate::db::*;
use crate::h::*;
use crate::val::V;
use mentat::HasSchema;
use mentat_tolstoy::{GlobalTransactionLog, SyncFollowup, SyncReport, Syncer, Tx, TxPart};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use uuid::Uuid;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "Taking turns: every sequence of transactions and syncs of several stores in which a store fetches before it writes and sends before another writes; every sync must report what it has to do, only sending may change the server and only fetching the store, new entities get ids nobody has, and stores that have synced have the same logs and datoms, ids included. Apart: every sequence of transactions and syncs without that restriction, then syncing until nobody has anything new; a merge says whether there is something to send, a sync that fails changes nothing, it comes to an end, all stores are equal, their schemas are what their datoms say, and every entity that was new in a transaction is there exactly once with its own values, references to itself and attributes. Failing: every call to the server fails, before or after taking effect; the sync fails and changes nothing, and repeating it gives what it should have. The server is an in-memory GlobalTransactionLog that keeps chunks as the JSON they would be sent as.",
        bounds: "quick: two stores, 15 kinds of transactions (new, upserted, dangling and self-referring entities, retractions, of what identifies an entity too, new attributes and idents, fulltext, all value types, several entities, facts about this transaction and an earlier one) to depth 2 and 6 and thrice 3 kinds (entities and attributes that later transactions refer to) to depth 3, three stores and 3 kinds to depth 2; every failing call of the last sync of 7 histories, with and without effect, with and without earlier syncs. thorough: 15 kinds to depth 3, 5 and 5 kinds to depth 4, three stores and 4 kinds to depth 3. The first store starts with 4 transactions (schema with a fulltext attribute, entities) and the others empty.",
        assumptions: vec!["the HTTP client and the real server are replaced by a stand-in with the same interface", "updates and retractions of entities that exist already, made on stores that have diverged, are merged as the prototype documents; only convergence is checked for those"],
    }
}

// ---------------------------------------------------------------- the server

/// A server that keeps what it is given, as the text it would be sent as; it can be told to fail.
#[derive(Clone, Default)]
pub struct Server {
    pub head: Uuid,
    pub chunks: HashMap<Uuid, String>,
    pub txs: HashMap<Uuid, (Uuid, Vec<Uuid>)>,
    calls: std::cell::Cell<u64>,
    /// The call to fail, and whether it takes effect first.
    fail_at: Option<(u64, bool)>,
    /// For C27: reached through HTTP.
    pub net: Option<std::sync::Arc<super::c27::Net>>,
}

type R<T> = Result<T, mentat::MentatError>;

impl Server {
    fn tick(&self) -> R<()> {
        self.calls.set(self.calls.get() + 1);
        if self.fail_at == Some((self.calls.get(), false)) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no connection").into());
        }
        Ok(())
    }
    fn done(&self) -> R<()> {
        if self.fail_at == Some((self.calls.get(), true)) {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "connection lost").into());
        }
        Ok(())
    }
    /// The transactions from the first one to the head.
    pub fn chain(&self) -> Vec<Uuid> {
        let mut out = vec![];
        let mut at = self.head;
        while at != Uuid::nil() {
            out.push(at);
            at = self.txs[&at].0;
        }
        out.reverse();
        out
    }
}

impl GlobalTransactionLog for Server {
    fn head(&self) -> R<Uuid> {
        self.tick()?;
        Ok(self.head)
    }
    fn transactions_after(&self, tx: &Uuid) -> R<Vec<Tx>> {
        self.tick()?;
        let chain = self.chain();
        let from = if *tx == Uuid::nil() { 0 } else { chain.iter().position(|t| t == tx).expect("a known transaction") + 1 };
        Ok(chain[from..].iter().map(|t| Tx { tx: *t, parts: self.txs[t].1.iter().map(|c| serde_json::from_str::<TxPart>(&self.chunks[c]).expect("chunk")).collect() }).collect())
    }
    fn set_head(&mut self, tx: &Uuid) -> R<()> {
        self.tick()?;
        assert!(self.txs.contains_key(tx), "head set to an unknown transaction");
        self.head = *tx;
        self.done()
    }
    fn put_transaction(&mut self, tx: &Uuid, parent: &Uuid, chunks: &[Uuid]) -> R<()> {
        self.tick()?;
        assert!(*parent == Uuid::nil() || self.txs.contains_key(parent), "unknown parent");
        assert!(chunks.iter().all(|c| self.chunks.contains_key(c)), "unknown chunk");
        assert!(self.txs.insert(*tx, (*parent, chunks.to_vec())).is_none(), "transaction put twice");
        self.done()
    }
    fn put_chunk(&mut self, id: &Uuid, part: &TxPart) -> R<()> {
        self.tick()?;
        assert!(self.chunks.insert(*id, serde_json::to_string(part).expect("json")).is_none(), "chunk put twice");
        self.done()
    }
}

// ---------------------------------------------------------------- transactions

const SCHEMA: &str = "[
    {:db/ident :t/l :db/valueType :db.type/string :db/cardinality :db.cardinality/one}
    {:db/ident :t/u :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/unique :db.unique/identity}
    {:db/ident :t/one :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true}
    {:db/ident :t/many :db/valueType :db.type/long :db/cardinality :db.cardinality/many}
    {:db/ident :t/ref :db/valueType :db.type/ref :db/cardinality :db.cardinality/many}
    {:db/ident :t/ft :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true}
    {:db/ident :t/d :db/valueType :db.type/double :db/cardinality :db.cardinality/one}
    {:db/ident :t/b :db/valueType :db.type/boolean :db/cardinality :db.cardinality/one}
    {:db/ident :t/i :db/valueType :db.type/instant :db/cardinality :db.cardinality/one}
    {:db/ident :t/uu :db/valueType :db.type/uuid :db/cardinality :db.cardinality/one}
    {:db/ident :t/k :db/valueType :db.type/keyword :db/cardinality :db.cardinality/one}]";

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum T {
    Item,
    Upsert,
    One,
    Ref,
    Take,
    Gone,
    Attr,
    Ft,
    Types,
    Two,
    About,
    Dangle,
    Past,
    Ident,
    Link,
    Share,
    Use,
    Big,
}
pub const ALL: &[T] = &[T::Item, T::Upsert, T::One, T::Ref, T::Take, T::Gone, T::Attr, T::Ft, T::Types, T::Two, T::About, T::Dangle, T::Past, T::Ident, T::Share];

pub fn text(t: T, label: &str, n: i64) -> String {
    match t {
        T::Item => format!("[{{:db/id \"i\" :t/l \"{}\"}}]", label),
        T::Upsert => format!("[{{:t/u \"k\" :t/many {}}}]", n),
        T::One => format!("[{{:t/u \"k\" :t/one \"{}\"}}]", label),
        T::Ref => format!("[{{:t/u \"k\" :t/ref \"n\"}} {{:db/id \"n\" :t/l \"{}\" :t/ref \"n\"}}]", label),
        T::Take => "[[:db/retract (lookup-ref :t/u \"k\") :t/many 0]]".into(),
        T::Gone => "[[:db/retract (lookup-ref :t/u \"k\") :t/u \"k\"] [:db/retract (lookup-ref :t/u \"k\") :t/many 1]]".into(),
        T::Attr => format!("[{{:db/ident :t/new{} :db/valueType :db.type/string :db/cardinality :db.cardinality/one}}]", label),
        T::Ft => format!("[{{:t/u \"k\" :t/ft \"{} word\"}} {{:db/id \"i\" :t/l \"{}\" :t/ft \"word\"}}]", label, label),
        T::Types => format!("[{{:t/u \"v{}\" :t/d {}.1 :t/b true :t/i #inst \"2020-01-01T00:00:00.00{}001Z\" :t/uu #uuid \"00000000-0000-0000-0000-00000000000{}\" :t/k :some/k{} :t/many -9223372036854775808}}]", n, n, n % 10, n % 10, n),
        T::Two => format!("[{{:db/id \"a\" :t/l \"{}a\"}} {{:db/id \"b\" :t/l \"{}b\"}} {{:t/u \"k2\" :t/one \"{}\"}}]", label, label, label),
        T::Link => format!("[{{:db/id \"i\" :t/l \"{}\" :t/ref (lookup-ref :t/u \"k2\")}}]", label),
        T::Share => "[{:db/ident :t/shared :db/valueType :db.type/string :db/cardinality :db.cardinality/one}]".into(),
        T::Use => format!("[{{:db/id \"i\" :t/l \"{}\" :t/shared \"{}\"}}]", label, label),
        T::Dangle => "[[:db/add (lookup-ref :t/u \"k\") :t/ref \"n\"]]".into(),
        T::Past => format!("[[:db/add 268435457 :t/l \"{}\"] [:db/add 268435457 :t/many {}]]", label, n),
        T::Ident => format!("[[:db/add \"n\" :db/ident :n/{}] [:db/add (lookup-ref :t/u \"k\") :t/ref \"n\"]]", label),
        T::Big => format!("[{{:db/id \"i\" :t/l \"{}\" :t/one \"{}\"}}]", label, "long € ".repeat(40000)),
        T::About => format!("[[:db/add (transaction-tx) :t/l \"{}\"] [:db/add (lookup-ref :t/u \"k\") :t/ref (transaction-tx)]]", label),
    }
}

// ---------------------------------------------------------------- stores

pub struct Store {
    pub db: Db,
}

impl Store {
    pub fn sync(&mut self, s: &mut Server) -> Result<SyncReport, String> {
        if let Some(net) = s.net.clone() {
            return net.sync(&mut self.db, s);
        }
        let (sql, conn) = (&mut self.db.sql, &mut self.db.conn);
        guard(|| -> Result<SyncReport, String> {
            let mut ip = conn.begin_transaction(sql).map_err(|e| format!("{}", e))?;
            let r = Syncer::sync(&mut ip, s).map_err(|e| format!("{}", e))?;
            ip.commit().map_err(|e| format!("{}", e))?;
            Ok(r)
        })
        .and_then(|r| r)
    }
    /// Transacts, and checks that new entities get ids nobody has.
    pub fn tx(&mut self, text: &str) -> Result<bool, String> {
        let used: BTreeSet<i64> = self.db.log().iter().flat_map(|r| vec![r.1, r.0]).collect();
        let known: BTreeSet<i64> = self.db.datoms().keys().filter(|d| d.2 == V::Str("k".into()) || d.2 == V::Str("k2".into())).map(|d| d.0).collect();
        match self.db.transact(text) {
            Ok(r) => {
                for (n, e) in &r.tempids {
                    if used.contains(e) && !known.contains(e) {
                        return Err(format!("{} transacted: the new entity {:?} gets the id {}, which is taken", text, n, e));
                    }
                }
                if used.contains(&r.tx_id) {
                    return Err(format!("{} transacted: the transaction gets the id {}, which is taken", text, r.tx_id));
                }
                coherent(&self.db)?;
                Ok(true)
            }
            Err(e) if e.starts_with("PANIC") => Err(e),
            Err(_) => Ok(false),
        }
    }
    /// Log without the bootstrap transaction, whose instant is its own.
    fn log(&self) -> BTreeSet<(i64, i64, i64, V, bool)> {
        self.db.log().into_iter().filter(|r| r.0 > 268435456).collect()
    }
    fn datoms(&self) -> BTreeMap<Datom, i64> {
        self.db.datoms().into_iter().filter(|d| d.0 .0 != 268435456).collect()
    }
}

pub fn same(a: &Store, b: &Store, what: &str) -> Result<(), String> {
    let (la, lb) = (a.log(), b.log());
    if la != lb {
        return Err(format!("{}: the logs differ:\nonly in the first: {:?}\nonly in the second: {:?}", what, la.difference(&lb).collect::<Vec<_>>(), lb.difference(&la).collect::<Vec<_>>()));
    }
    let (da, db) = (a.datoms(), b.datoms());
    if da != db {
        let (x, y): (BTreeSet<_>, BTreeSet<_>) = (da.into_iter().collect(), db.into_iter().collect());
        return Err(format!("{}: the datoms differ:\nonly in the first: {:?}\nonly in the second: {:?}", what, x.difference(&y).collect::<Vec<_>>(), y.difference(&x).collect::<Vec<_>>()));
    }
    coherent(&a.db)?;
    coherent(&b.db)?;
    Ok(())
}

// ---------------------------------------------------------------- taking turns

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Step {
    Tx(usize, T),
    Sync(usize),
}

pub struct World {
    pub server: Server,
    pub stores: Vec<Store>,
    /// For every store, the transactions of its own that it has not sent yet, and how many of the
    /// server's it has.
    dirty: Vec<usize>,
    has: Vec<usize>,
    len: usize,
}

impl World {
    /// The first store has everything, the others are new.
    pub fn new(b: &(Db, Db), n: usize) -> World {
        let mut w = World { server: Server::default(), stores: vec![Store { db: b.0.fork() }], dirty: vec![0; n], has: vec![0; n], len: 0 };
        w.stores.extend((1..n).map(|_| Store { db: b.1.fork() }));
        w.dirty[0] = 4;
        w
    }
    pub fn sync(&mut self, r: usize) -> Result<(), String> {
        let want = match (self.has[r] < self.len, self.dirty[r] > 0) {
            (false, false) => SyncReport::NoChanges,
            (false, true) => SyncReport::RemoteFastForward,
            (true, false) if self.has[r] == 0 => SyncReport::Merge(SyncFollowup::None),
            (true, false) => SyncReport::LocalFastForward,
            (true, true) => unreachable!(),
        };
        let before = self.stores[r].log();
        let head = self.server.head;
        let got = self.stores[r].sync(&mut self.server).map_err(|e| format!("store {} cannot sync: {}", r, e))?;
        if got != want {
            return Err(format!("store {} syncs: {:?}, should be {:?}", r, got, want));
        }
        self.len += self.dirty[r];
        self.dirty[r] = 0;
        self.has[r] = self.len;
        if want != SyncReport::Merge(SyncFollowup::None) && want != SyncReport::LocalFastForward && before != self.stores[r].log() {
            return Err(format!("sending changed the store {}", r));
        }
        if want != SyncReport::RemoteFastForward && head != self.server.head {
            return Err("nothing sent changed the server's head".into());
        }
        if self.server.chain().len() != self.len {
            return Err(format!("the server has {} transactions, should have {}", self.server.chain().len(), self.len));
        }
        for o in 0..self.stores.len() {
            if o != r && self.has[o] == self.len && self.dirty[o] == 0 {
                same(&self.stores[o], &self.stores[r], &format!("stores {} and {} have synced", o, r))?;
            }
        }
        Ok(())
    }
    fn step(&mut self, s: Step) -> Result<(), String> {
        match s {
            Step::Sync(r) => self.turn(r).and_then(|_| self.sync(r)),
            Step::Tx(r, t) => {
                self.turn(r)?;
                if self.has[r] < self.len {
                    self.sync(r)?;
                }
                let n = (self.len + self.dirty[r]) as i64;
                if self.stores[r].tx(&text(t, &format!("x{}", n), n))? {
                    self.dirty[r] += 1;
                }
                Ok(())
            }
        }
    }
    /// Before `r` does anything, the others send what they have.
    fn turn(&mut self, r: usize) -> Result<(), String> {
        for o in 0..self.stores.len() {
            if o != r && self.dirty[o] > 0 {
                self.sync(o)?;
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- apart

/// What must be there in the end, whoever said it: entities that were new in the transaction.
#[derive(Default)]
pub struct Kept {
    labels: BTreeSet<String>,
    selfref: BTreeSet<String>,
    idents: BTreeSet<String>,
    typed: BTreeSet<i64>,
    k2: BTreeSet<String>,
    links: BTreeSet<String>,
    uses: BTreeSet<String>,
    /// Somebody took the identity of k, somebody said something about k.
    gone: bool,
    said: bool,
}

impl Kept {
    pub fn add(&mut self, t: T, label: &str, n: i64) {
        self.gone |= t == T::Gone;
        self.said |= t != T::Gone && text(t, label, n).contains("\"k\"");
        match t {
            T::Item | T::Ft => {
                self.labels.insert(label.into());
            }
            T::Ref => {
                self.labels.insert(label.into());
                self.selfref.insert(label.into());
            }
            T::Two => {
                self.labels.insert(format!("{}a", label));
                self.labels.insert(format!("{}b", label));
                self.k2.insert(label.into());
            }
            T::Link => {
                self.labels.insert(label.into());
                self.links.insert(label.into());
            }
            T::Share => {
                self.idents.insert("t/shared".into());
            }
            T::Use => {
                self.labels.insert(label.into());
                self.uses.insert(label.into());
            }
            T::Attr => {
                self.idents.insert(format!("t/new{}", label));
            }
            T::Ident => {
                self.idents.insert(format!("n/{}", label));
            }
            T::Types => {
                self.typed.insert(n);
            }
            _ => {}
        }
    }
    pub fn check(&self, s: &Store) -> Result<(), String> {
        let datoms = s.datoms();
        let mut ids = BTreeMap::new();
        for n in &["t/l", "t/ref", "t/ft", "t/u", "t/one"] {
            let e: Option<i64> = s.db.conn.current_schema().get_entid(&crate::val::kw(n)).map(|e| e.into());
            ids.insert(*n, e.ok_or_else(|| format!("the attribute :{} is lost", n))?);
        }
        let id = |n: &str| ids[n];
        let shared: Option<i64> = s.db.conn.current_schema().get_entid(&crate::val::kw("t/shared")).map(|e| e.into());
        let with = |a: &str, v: &V| -> Vec<i64> { datoms.keys().filter(|d| d.1 == id(a) && d.2 == *v).map(|d| d.0).collect() };
        for l in self.labels.iter().cloned().chain(std::iter::once("o".to_string())) {
            let es = with("t/l", &V::Str(l.clone()));
            if es.len() != 1 {
                return Err(format!("there should be one entity with the label {:?}: {:?}", l, es));
            }
            let all: Vec<_> = datoms.keys().filter(|d| d.0 == es[0]).collect();
            if self.selfref.contains(&l) && !datoms.contains_key(&(es[0], id("t/ref"), V::Ref(es[0]))) {
                return Err(format!("the entity {} ({:?}) should refer to itself: {:?}", es[0], l, all));
            }
            if self.links.contains(&l) && all.iter().filter(|d| d.1 == id("t/ref")).map(|d| d.2.clone()).collect::<Vec<_>>() != with("t/u", &V::s("k2")).into_iter().map(V::Ref).collect::<Vec<_>>() {
                return Err(format!("the entity {} ({:?}) should refer to k2 ({:?}): {:?}", es[0], l, with("t/u", &V::s("k2")), all));
            }
            if self.uses.contains(&l) && !all.iter().any(|d| Some(d.1) == shared && d.2 == V::Str(l.clone())) {
                return Err(format!("the entity {} ({:?}) should have a value of the attribute {:?}: {:?}", es[0], l, shared, all));
            }
            // Nobody else's attributes.
            if all.iter().any(|d| (!self.uses.contains(&l) || Some(d.1) != shared) && d.1 != id("t/l") && d.1 != id("t/ref") && d.1 != id("t/ft")) {
                return Err(format!("the entity {} ({:?}) is somebody else, too: {:?}", es[0], l, all));
            }
        }
        for i in &self.idents {
            if s.db.conn.current_schema().ident_map.get(&crate::val::kw(i)).is_none() {
                return Err(format!("the attribute :{} is lost", i));
            }
        }
        for n in &self.typed {
            let es = with("t/u", &V::Str(format!("v{}", n)));
            let got: BTreeMap<i64, V> = if es.len() == 1 { datoms.keys().filter(|d| d.0 == es[0]).map(|d| (d.1, d.2.clone())).collect() } else { BTreeMap::new() };
            if got.len() != 7 {
                return Err(format!("the entity v{}: {:?} {:?}", n, es, got));
            }
        }
        if self.gone && !self.said && !with("t/u", &V::Str("k".into())).is_empty() {
            return Err("the retraction of what identifies k is lost, although nobody else said anything about it".into());
        }
        if !self.k2.is_empty() {
            let es = with("t/u", &V::Str("k2".into()));
            let one: Vec<&V> = datoms.keys().filter(|d| es.contains(&d.0) && d.1 == id("t/one")).map(|d| &d.2).collect();
            if es.len() != 1 || one.len() != 1 || !self.k2.iter().any(|l| V::Str(l.clone()) == *one[0]) {
                return Err(format!("there should be one entity k2 with one of {:?}: {:?} {:?}", self.k2, es, one));
            }
        }
        Ok(())
    }
}

/// The largest id of an entity of users mentioned in a transaction on the server.
fn largest(s: &Server, tx: &Uuid) -> i64 {
    let mut m = 0;
    for c in &s.txs[tx].1 {
        let p: TxPart = serde_json::from_str(&s.chunks[c]).expect("chunk");
        for x in std::iter::once(p.e).chain(if let mentat::TypedValue::Ref(v) = p.v { Some(v) } else { None }) {
            if x < 268435456 {
                m = m.max(x);
            }
        }
    }
    m
}

pub struct Apart {
    pub w: World,
    pub kept: Kept,
    /// A merge had to allocate ids with the partitions of a transaction that is not the one with the
    /// largest ids (see the known findings).
    pub rewound: bool,
    /// What a merge said of the next sync of the store, if nothing else happens: whether there is anything to send.
    pub next: BTreeMap<usize, (Uuid, bool)>,
}

impl Apart {
    pub fn sync(&mut self, r: usize) -> Result<SyncReport, String> {
        let w = &mut self.w;
        let before = (w.stores[r].db.dump(), w.server.head);
        let chain = w.server.chain();
        match w.stores[r].sync(&mut w.server) {
            Ok(s) => {
                if let SyncReport::Merge(_) = s {
                    let all = chain.iter().map(|t| largest(&w.server, t)).max().unwrap_or(0);
                    if chain.last().map_or(0, |t| largest(&w.server, t)) < all {
                        self.rewound = true;
                    }
                }
                match self.next.remove(&r) {
                    Some((h, send)) if h == before.1 && s != (if send { SyncReport::RemoteFastForward } else { SyncReport::NoChanges }) => {
                        return Err(format!("store {} syncs ({:?}) after a merge that said there {} something to send", r, s, if send { "is" } else { "isn't" }));
                    }
                    _ => {}
                }
                if let SyncReport::Merge(f) = &s {
                    self.next.insert(r, (w.server.head, *f == SyncFollowup::FullSync));
                }
                if s != SyncReport::RemoteFastForward && before.1 != w.server.head {
                    return Err(format!("store {} syncs ({:?}) and moves the server's head", r, s));
                }
                if (s == SyncReport::RemoteFastForward || s == SyncReport::NoChanges) && before.0 != w.stores[r].db.dump() {
                    return Err(format!("store {} syncs ({:?}) and changes", r, s));
                }
                Ok(s)
            }
            Err(e) => {
                if (w.stores[r].db.dump(), w.server.head) != before {
                    return Err(format!("the failed sync of store {} ({}) changes something", r, e));
                }
                Err(format!("store {} cannot sync: {}", r, e))
            }
        }
    }

    /// Syncs whoever, until nobody has anything new.
    pub fn settle(&mut self) -> Result<(), String> {
        for _ in 0..6 {
            let mut quiet = true;
            for r in 0..self.w.stores.len() {
                quiet &= self.sync(r)? == SyncReport::NoChanges;
            }
            if quiet {
                for r in 1..self.w.stores.len() {
                    same(&self.w.stores[0], &self.w.stores[r], &format!("in the end, stores 0 and {}", r))?;
                }
                return Ok(());
            }
        }
        Err("syncing does not come to an end".into())
    }
}

/// Err: what is wrong, and whether it is what happens when ids are handed out again by a merge.
pub fn apart(ctx: &Ctx, b: &(Db, Db), net: Option<std::sync::Arc<super::c27::Net>>, n: usize, steps: &[Step]) -> Result<(), (bool, String)> {
    let mut a = Apart {
        w: World::new(b, n),
        kept: Kept::default(),
        rewound: false,
        next: BTreeMap::new(),
    };
    a.w.server.net = net;
    let hard = |e| (false, e);
    for r in 0..n {
        a.w.sync(r).map_err(hard)?;
    }
    for (i, s) in steps.iter().enumerate() {
        ctx.transition(1);
        match s {
            Step::Tx(r, t) => {
                let (label, n) = (format!("s{}x{}", r, i), i as i64 + 2);
                if a.w.stores[*r].tx(&text(*t, &label, n)).map_err(|e| (a.rewound, e))? {
                    a.next.remove(r);
                    a.kept.add(*t, &label, n);
                }
            }
            Step::Sync(r) => {
                let s = a.sync(*r).map_err(hard)?;
                ctx.outcome(&format!("{:?}", s));
            }
        }
    }
    a.settle().map_err(hard)?;
    a.kept.check(&a.w.stores[0]).map_err(|e| (a.rewound, e))
}

// ---------------------------------------------------------------- the server fails

/// Histories, the last step of each being a sync during which the server fails.
pub fn failing() -> Vec<Vec<Step>> {
    use self::Step::*;
    vec![
        vec![Sync(0)],
        vec![Tx(0, T::Item), Sync(0)],
        vec![Tx(0, T::Attr), Tx(0, T::Ft), Tx(0, T::Types), Sync(0)],
        vec![Tx(0, T::Two), Tx(0, T::Ref), Sync(0), Sync(1)],
        vec![Tx(0, T::Item), Sync(0), Tx(1, T::Item), Sync(1)],
        vec![Tx(0, T::Two), Sync(0), Tx(1, T::Two), Tx(1, T::Attr), Sync(1)],
        vec![Tx(0, T::Item), Sync(0), Tx(1, T::Ref), Sync(1), Sync(1)],
    ]
}

/// The server fails at one call of the last sync; it is repeated. None: there is no such call.
fn fault(ctx: &Ctx, b: &(Db, Db), steps: &[Step], at: u64, effect: bool, first: bool) -> Result<Option<()>, (bool, String)> {
    let hard = |e| (false, e);
    let mut a = Apart {
        w: World::new(b, 2),
        kept: Kept::default(),
        rewound: false,
        next: BTreeMap::new(),
    };
    let mut lost = false;
    if !first {
        a.w.sync(0).map_err(hard)?;
        a.w.sync(1).map_err(hard)?;
    }
    for (i, s) in steps.iter().enumerate() {
        ctx.transition(1);
        match s {
            Step::Tx(r, t) => {
                let (label, n) = (format!("s{}x{}", r, i), i as i64 + 2);
                if a.w.stores[*r].tx(&text(*t, &label, n)).map_err(hard)? {
                    a.kept.add(*t, &label, n);
                }
            }
            Step::Sync(r) if i + 1 == steps.len() => {
                let (before, head) = (a.w.stores[*r].db.dump(), a.w.server.head);
                a.w.server.fail_at = Some((a.w.server.calls.get() + at, effect));
                let got = a.w.stores[*r].sync(&mut a.w.server);
                let reached = a.w.server.calls.get() >= a.w.server.fail_at.unwrap().0;
                a.w.server.fail_at = None;
                match got {
                    Ok(_) if !reached => return Ok(None),
                    // Reading has no effects.
                    Ok(_) if effect => {}
                    Ok(g) => return Err(hard(format!("call {} of the sync fails, the sync does not: {:?}", at, g))),
                    Err(_) if before != a.w.stores[*r].db.dump() => return Err(hard(format!("call {} of the sync fails, and the sync changes the store", at))),
                    Err(e) if e.starts_with("PANIC") => return Err(hard(e)),
                    // (See the known findings.)
                    Err(_) => lost = a.w.server.head != head,
                }
            }
            Step::Sync(r) => {
                a.sync(*r).map_err(hard)?;
            }
        }
    }
    a.settle().map_err(|e| (lost, e))?;
    a.kept.check(&a.w.stores[0]).map_err(|e| (lost, e))?;
    Ok(Some(()))
}


/// Numbers of stores, the kinds of transactions enumerated, and to which depth.
fn levels(thorough: bool) -> Vec<(usize, &'static [T], usize)> {
    const FEW: &[T] = &[T::Item, T::One, T::Ref, T::Gone, T::Attr, T::Dangle];
    if thorough {
        vec![(2, ALL, 3), (3, &[T::Item, T::One, T::Ref, T::Attr], 3), (2, &FEW[..5], 4), (2, &[T::Item, T::Two, T::Link, T::Share, T::Use], 4)]
    } else {
        vec![(2, ALL, 2), (2, FEW, 3), (2, &[T::Item, T::Take, T::Past], 3), (2, &[T::Item, T::Two, T::Link], 3), (2, &[T::Item, T::Share, T::Use], 3), (3, &[T::Item, T::One, T::Ref], 2)]
    }
}

pub fn sequences_of(n: usize, kinds: &[T], depth: usize) -> Vec<Vec<Step>> {
    let mut steps = vec![];
    for r in 0..n {
        for t in kinds {
            steps.push(Step::Tx(r, *t));
        }
        steps.push(Step::Sync(r));
    }
    // Everybody syncs in the end, so shorter sequences are the ones with syncs at the end.
    sequences(steps.len(), depth).into_iter().filter(|s| s.len() == depth).map(|s| s.into_iter().map(|i| steps[i]).collect()).collect()
}

pub fn name(s: &[Step]) -> String {
    s.iter()
        .map(|s| match s {
            Step::Tx(r, t) => format!("{}{:?}", r, t),
            Step::Sync(r) => format!("{}sync", r),
        })
        .collect::<Vec<_>>()
        .join(",")
}

pub fn turns(ctx: &Ctx, b: &(Db, Db), net: Option<std::sync::Arc<super::c27::Net>>, n: usize, steps: &[Step]) -> Result<(), String> {
    let mut w = World::new(b, n);
    w.server.net = net;
    w.sync(0)?;
    for s in steps {
        ctx.transition(1);
        w.step(*s)?;
    }
    for _ in 0..2 {
        for r in 0..n {
            w.turn(r)?;
            w.sync(r)?;
        }
    }
    same(&w.stores[0], &w.stores[1], "in the end")
}

/// The first store has everything, the others are new.
pub fn start() -> (Db, Db) {
    let mut first = Db::new();
    first.must(SCHEMA);
    first.must("[{:t/u \"k\" :t/one \"one\" :t/many [0 1]}]");
    first.must("[{:db/id \"o\" :t/l \"o\"} [:db/add (lookup-ref :t/u \"k\") :t/ref \"o\"]]");
    (first, Db::new())
}

pub fn run(ctx: &Ctx) {
    let _quiet = Quiet::new();
    let base = std::sync::Mutex::new(start());
    let mk = || {
        let b = base.lock().unwrap();
        (b.0.fork(), b.1.fork())
    };
    for t in ALL {
        let r = mk().0.transact(&text(*t, "x", 5)).map(|_| ());
        assert!(r.is_ok(), "{:?}: {:?}", t, r);
    }
    for (n, kinds, depth) in levels(ctx.thorough) {
        let seqs = sequences_of(n, kinds, depth);
        ctx.par_with(seqs.len() * 2, mk, |b, j| {
            let (list, way) = (&seqs[j / 2], j % 2);
            let case = format!("{}|{}|{}", ["turns", "apart"][way], n, name(list));
            if !ctx.want(&case) {
                return;
            }
            ctx.trace(1);
            let (got, what) = if way == 0 { (turns(ctx, b, None, n, list).map_err(|e| (false, e)), "stores taking turns") } else { (apart(ctx, b, None, n, list), "stores apart") };
            ctx.count(what, 1);
            if let Err((known, e)) = got {
                let sig = if known { "C17/merge-ids".to_string() } else { format!("C17/{}", case) };
                ctx.violation(sig, case, format!("steps: {:?}\n{}", list, e));
            }
        });
    }
    let hs = failing();
    ctx.par_with(hs.len() * 4, mk, |b, j| {
        let (h, effect, first) = (&hs[j / 4], j % 2 == 1, j / 2 % 2 == 1);
        for at in 1..200 {
            let case = format!("fault|{}|{}", j, at);
            if !ctx.want(&case) {
                continue;
            }
            ctx.trace(1);
            ctx.count("failing calls", 1);
            match fault(ctx, b, h, at, effect, first) {
                Ok(None) => break,
                Ok(Some(())) => {}
                Err((known, e)) => {
                    let sig = if known { "C17/lost-answer".to_string() } else { format!("C17/{}", case) };
                    ctx.violation(sig, case, format!("steps: {:?}{}\n{}", h, if effect { ", the failing call takes effect" } else { "" }, e));
                }
            }
        }
    });
}
