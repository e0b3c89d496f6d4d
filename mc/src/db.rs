//! Access to a real store: opening, cloning images, and reading everything in it with plain SQL.
use crate::val::V;
use mentat::Conn;
use std::collections::{BTreeMap, BTreeSet};

pub type Datom = (i64, i64, V);

/// A real Mentat store: a SQLite connection and the Conn on it.
pub struct Db {
    pub sql: rusqlite::Connection,
    pub conn: Conn,
}

/// Everything observable in the database file, in canonical form.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Dump {
    /// (e, a, v) -> tx, fulltext values interpolated.
    pub datoms: BTreeMap<Datom, i64>,
    /// (tx, e, a, v, added) of the main timeline.
    pub log: BTreeSet<(i64, i64, i64, V, bool)>,
    /// Rows of the log that are not on the main timeline.
    pub other_log: Vec<(i64, i64, i64, V, bool, i64)>,
    pub idents: BTreeSet<(i64, i64, V)>,
    pub schema: BTreeSet<(i64, i64, V)>,
    pub flags: BTreeMap<Datom, (i64, i64, i64, i64)>,
    pub parts: Vec<(String, i64, i64)>,
}

const VARS: rusqlite::limits::Limit = rusqlite::limits::Limit::SQLITE_LIMIT_VARIABLE_NUMBER;

impl Db {
    /// Limit the variables of a statement on this store and its forks, which is what the transactor
    /// divides its work by: in chunks of 2 lookups and 1 insertion if `few`, which puts chunk
    /// boundaries into small transactions, and SQLite's own limit otherwise.
    pub fn limit(&self, few: bool) {
        self.sql.set_limit(VARS, if few { 9 } else { 32766 });
    }
    pub fn new() -> Db {
        let mut sql = mentat::new_connection("").expect("connection");
        let conn = Conn::connect(&mut sql).expect("conn");
        Db { sql, conn }
    }
    pub fn open(path: &str) -> Result<Db, String> {
        let mut sql = mentat::new_connection(path).map_err(|e| format!("{}", e))?;
        let conn = Conn::connect(&mut sql).map_err(|e| format!("{}", e))?;
        Ok(Db { sql, conn })
    }
    /// A new store holding a page-for-page copy of this one's committed content.
    pub fn fork(&self) -> Db {
        self.try_fork().expect("fork")
    }
    pub fn try_fork(&self) -> Result<Db, String> {
        let mut sql = self.copy_sql();
        let conn = Conn::connect(&mut sql).map_err(|e| format!("{}", e))?;
        Ok(Db { sql, conn })
    }
    pub fn copy_sql(&self) -> rusqlite::Connection {
        let mut sql = mentat::new_connection("").expect("connection");
        sql.set_limit(VARS, self.sql.limit(VARS));
        {
            let b = rusqlite::backup::Backup::new(&self.sql, &mut sql).expect("backup");
            let r = b.step(-1).expect("step");
            assert_eq!(r, rusqlite::backup::StepResult::Done);
        }
        sql
    }
    pub fn transact(&mut self, edn: &str) -> Result<mentat::TxReport, String> {
        let (s, c) = (&mut self.sql, &mut self.conn);
        crate::h::guard(|| -> Result<mentat::TxReport, String> {
            let mut ip = c.begin_transaction(s).map_err(|e| format!("{}", e))?;
            let r = ip.transact(edn).map_err(|e| format!("{}", e))?;
            ip.commit().map_err(|e| format!("{}", e))?;
            Ok(r)
        })
        .and_then(|r| r)
    }
    pub fn must(&mut self, edn: &str) -> mentat::TxReport {
        match self.transact(edn) {
            Ok(r) => r,
            Err(e) => panic!("setup transaction rejected: {}\n{}", e, edn),
        }
    }
    pub fn entid(&self, ident: &str) -> i64 {
        use mentat::HasSchema;
        self.conn.current_schema().get_entid(&crate::val::kw(ident)).unwrap_or_else(|| panic!("no ident {}", ident)).into()
    }
    pub fn datoms(&self) -> BTreeMap<Datom, i64> {
        datoms(&self.sql)
    }
    pub fn dump(&self) -> Dump {
        dump(&self.sql)
    }
    pub fn log(&self) -> BTreeSet<(i64, i64, i64, V, bool)> {
        log(&self.sql)
    }
}

/// Attributes whose values are stored as rowids of fulltext_values.
pub fn fts_attrs(sql: &rusqlite::Connection) -> BTreeSet<i64> {
    let mut st = sql.prepare_cached("SELECT DISTINCT e FROM datoms WHERE a = (SELECT e FROM datoms WHERE v = ':db/fulltext' AND value_type_tag = 13 AND a = 1) AND v = 1 AND value_type_tag = 1").unwrap();
    let r = st.query_map(rusqlite::params![], |r| r.get::<_, i64>(0)).unwrap().map(|x| x.unwrap()).collect();
    r
}

fn fts_text(sql: &rusqlite::Connection, v: rusqlite::types::ValueRef<'_>) -> V {
    match v {
        rusqlite::types::ValueRef::Integer(rowid) => {
            let mut st = sql.prepare_cached("SELECT text FROM fulltext_values WHERE rowid = ?").unwrap();
            let mut rows = st.query(&[&rowid]).unwrap();
            match rows.next().unwrap() {
                Some(r) => V::Str(r.get::<_, String>(0).unwrap()),
                None => V::Bad(format!("dangling fulltext rowid {}", rowid)),
            }
        }
        v => V::Bad(format!("fulltext {:?}", v)),
    }
}

pub fn datoms(sql: &rusqlite::Connection) -> BTreeMap<Datom, i64> {
    let mut st = sql.prepare_cached("SELECT e, a, v, value_type_tag, tx, index_fulltext FROM datoms").unwrap();
    let mut rows = st.query(rusqlite::params![]).unwrap();
    let mut out = BTreeMap::new();
    while let Some(r) = rows.next().unwrap() {
        let (e, a, tag, tx, ft): (i64, i64, i64, i64, i64) = (r.get(0).unwrap(), r.get(1).unwrap(), r.get(3).unwrap(), r.get(4).unwrap(), r.get(5).unwrap());
        let v = if ft != 0 { fts_text(sql, r.get_raw(2)) } else { V::from_sql(r.get_raw(2), tag) };
        if out.insert((e, a, v.clone()), tx).is_some() {
            out.insert((e, a, V::Bad(format!("duplicate {:?}", v))), tx);
        }
    }
    out
}

/// The transaction log of the main timeline. Fulltext values are logged as rowids of
/// fulltext_values and interpolated here.
pub fn log(sql: &rusqlite::Connection) -> BTreeSet<(i64, i64, i64, V, bool)> {
    let mut out = BTreeSet::new();
    for (tx, e, a, v, added, timeline) in log_rows(sql) {
        if timeline == 0 && !out.insert((tx, e, a, v.clone(), added)) {
            out.insert((tx, e, a, V::Bad(format!("duplicate log row {:?}", v)), added));
        }
    }
    out
}

pub fn log_rows(sql: &rusqlite::Connection) -> Vec<(i64, i64, i64, V, bool, i64)> {
    let fts = fts_attrs(sql);
    let mut st = sql.prepare_cached("SELECT tx, e, a, v, value_type_tag, added, timeline FROM timelined_transactions").unwrap();
    let mut rows = st.query(rusqlite::params![]).unwrap();
    let mut out = vec![];
    while let Some(r) = rows.next().unwrap() {
        let (tx, e, a, tag, added, tl): (i64, i64, i64, i64, bool, i64) = (r.get(0).unwrap(), r.get(1).unwrap(), r.get(2).unwrap(), r.get(4).unwrap(), r.get(5).unwrap(), r.get(6).unwrap());
        let raw = r.get_raw(3);
        let v = if fts.contains(&a) && raw.data_type() == rusqlite::types::Type::Integer { fts_text(sql, raw) } else { V::from_sql(raw, tag) };
        out.push((tx, e, a, v, added, tl));
    }
    out
}

fn triples(sql: &rusqlite::Connection, table: &str) -> BTreeSet<(i64, i64, V)> {
    let mut st = sql.prepare_cached(&format!("SELECT e, a, v, value_type_tag FROM {}", table)).unwrap();
    let mut rows = st.query(rusqlite::params![]).unwrap();
    let mut out = BTreeSet::new();
    while let Some(r) = rows.next().unwrap() {
        let (e, a, tag): (i64, i64, i64) = (r.get(0).unwrap(), r.get(1).unwrap(), r.get(3).unwrap());
        let v = V::from_sql(r.get_raw(2), tag);
        if !out.insert((e, a, v.clone())) {
            out.insert((e, a, V::Bad(format!("duplicate {:?}", v))));
        }
    }
    out
}

pub fn dump(sql: &rusqlite::Connection) -> Dump {
    let mut flags = BTreeMap::new();
    {
        let mut st = sql.prepare_cached("SELECT e, a, v, value_type_tag, index_avet, index_vaet, index_fulltext, unique_value FROM datoms").unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() {
            let (e, a, tag): (i64, i64, i64) = (r.get(0).unwrap(), r.get(1).unwrap(), r.get(3).unwrap());
            let f: (i64, i64, i64, i64) = (r.get(4).unwrap(), r.get(5).unwrap(), r.get(6).unwrap(), r.get(7).unwrap());
            let v = if f.2 != 0 { fts_text(sql, r.get_raw(2)) } else { V::from_sql(r.get_raw(2), tag) };
            flags.insert((e, a, v), f);
        }
    }
    let mut parts = vec![];
    {
        let mut st = sql.prepare_cached("SELECT part, start, idx FROM parts ORDER BY part").unwrap();
        let mut rows = st.query(rusqlite::params![]).unwrap();
        while let Some(r) = rows.next().unwrap() {
            parts.push((r.get(0).unwrap(), r.get(1).unwrap(), r.get(2).unwrap()));
        }
    }
    Dump {
        datoms: datoms(sql),
        log: log(sql),
        other_log: log_rows(sql).into_iter().filter(|r| r.5 != 0).collect(),
        idents: triples(sql, "idents"),
        schema: triples(sql, "schema"),
        flags,
        parts,
    }
}
