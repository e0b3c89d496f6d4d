//! C08: committed transactions survive a crash at any point, and nothing else does.
use crate::db::*;
use crate::h::*;
use crate::val::{kw, V};
use crate::vfs::*;
use mentat::CacheDirection;
use mentat_transaction::CacheAction;
use std::collections::{HashMap, HashSet};
use std::sync::{Arc, Mutex};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "the real store runs on an in-memory disk that records every write, truncation, sync, creation and deletion; for every point of every history, every disk content a crash there may leave (synced data kept; of unsynced operations all, none, each single one lost, the last one alone or torn, small sets fully) is opened as a store: it must hold exactly the committed transactions, or those plus all of the one being committed, pass SQLite's integrity check, and continue exactly like a store that never crashed; recovery is crashed at every point too",
        bounds: "creation of a store; every history of <= 2 operations of 16 (crash points of the last one; those of every prefix are covered by the prefix), from 3 start images; recovery of single-operation histories crashed again (quick: one in sixteen of their crash states)",
        assumptions: vec!["writes never affect bytes outside their range (SQLite's POWERSAFE_OVERWRITE, as its unix VFS assumes)", "a file's synced content is durable, and so is a deletion that syncs the directory; any other deletion is durable once a file of the same directory is synced after it"],
    }
}

pub type Act0 = fn(&mut Db) -> Result<(), String>;

fn t(db: &mut Db, s: &str) -> Result<(), String> {
    db.transact(s).map(|_| ())
}

pub fn ops() -> Vec<(&'static str, Act0)> {
    vec![
        ("data", |d| t(d, "[{:db/id \"n\" :t/id \"b\" :t/l1 3 :t/lm [1 2 3]} [:db/add (lookup-ref :t/id \"a\") :t/r1 \"n\"]]")),
        ("replace and retract", |d| t(d, "[[:db/add (lookup-ref :t/id \"a\") :t/l1 9] [:db/retract (lookup-ref :t/id \"a\") :t/lm 1]]")),
        ("fulltext", |d| t(d, "[[:db/add (lookup-ref :t/id \"a\") :t/f1 \"some new text\"]]")),
        ("attribute", |d| t(d, "[{:db/ident :t/q :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]")),
        ("alteration", |d| t(d, "[[:db/add :t/lm :db/index true] [:db/add :t/l1 :db/cardinality :db.cardinality/many]]")),
        ("rename", |d| t(d, "[[:db/add :t/l2 :db/ident :t/l3]]")),
        ("large", |d| {
            let mut s = String::from("[");
            for i in 0..250 {
                s.push_str(&format!("[:db/add \"x{}\" :t/s \"a string that takes up some room in the pages of the store, so that the transaction spans several: {}\"]", i % 50, i));
            }
            s.push(']');
            t(d, &s)
        }),
        ("two in one", |d| {
            let (s, c) = (&mut d.sql, &mut d.conn);
            let mut ip = c.begin_transaction(s).map_err(|e| e.to_string())?;
            ip.transact("[{:t/id \"c\" :t/l1 1}]").map_err(|e| e.to_string())?;
            ip.transact("[{:t/id \"d\" :t/l1 2 :t/f1 \"text\"}]").map_err(|e| e.to_string())?;
            ip.commit().map_err(|e| e.to_string())
        }),
        ("attribute and use in one", |d| {
            let (s, c) = (&mut d.sql, &mut d.conn);
            let mut ip = c.begin_transaction(s).map_err(|e| e.to_string())?;
            ip.transact("[{:db/ident :t/w :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]").map_err(|e| e.to_string())?;
            ip.transact("[[:db/add \"z\" :t/w 1]]").map_err(|e| e.to_string())?;
            ip.commit().map_err(|e| e.to_string())
        }),
        ("rolled back", |d| {
            let (s, c) = (&mut d.sql, &mut d.conn);
            let mut ip = c.begin_transaction(s).map_err(|e| e.to_string())?;
            ip.transact("[{:t/id \"no\" :t/l1 1}]").map_err(|e| e.to_string())?;
            ip.rollback().map_err(|e| e.to_string())
        }),
        ("refused", |d| match t(d, "[{:t/id \"no\" :t/l1 1} [:db/add :t/nope :t/l1 1]]") {
            Ok(_) => Err("accepted".into()),
            Err(_) => Ok(()),
        }),
        ("refused inside, committed", |d| {
            let (s, c) = (&mut d.sql, &mut d.conn);
            let mut ip = c.begin_transaction(s).map_err(|e| e.to_string())?;
            ip.transact("[{:t/id \"in\" :t/l1 1}]").map_err(|e| e.to_string())?;
            let _ = ip.transact("[[:db/add :t/id :db/cardinality :db.cardinality/many] [:db/retract :t/id :db/index true]]");
            ip.commit().map_err(|e| e.to_string())
        }),
        ("nothing", |d| t(d, "[]")),
        ("cache and query", |d| {
            let sch = d.conn.current_schema();
            let (s, c) = (&mut d.sql, &mut d.conn);
            c.cache(s, &sch, &kw("t/id"), CacheDirection::Both, CacheAction::Register).map_err(|e| e.to_string())?;
            c.q_once(s, "[:find ?e ?v :where [?e :t/l1 ?v]]", None).map_err(|e| e.to_string())?;
            Ok(())
        }),
        ("first timeline op: delete all", |d| t(d, "[[:db/retract (lookup-ref :t/id \"a\") :t/lm 2] [:db/retract (lookup-ref :t/id \"a\") :t/id \"a\"]]")),
        // Handled by the caller: the connection is closed and opened again.
        ("reopen", |_| Ok(())),
    ]
}

const LARGE: usize = 6;

pub fn mask(mut d: Dump) -> Dump {
    let m = |a: i64, v: V| if a == 3 { V::Str("instant".into()) } else { v };
    d.datoms = d.datoms.into_iter().map(|((e, a, v), t)| ((e, a, m(a, v)), t)).collect();
    d.flags = d.flags.into_iter().map(|((e, a, v), t)| ((e, a, m(a, v)), t)).collect();
    d.log = d.log.into_iter().map(|(t, e, a, v, x)| (t, e, a, m(a, v), x)).collect();
    d
}

/// The dump of a store, and how it goes on from there.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Snap {
    pub dump: Dump,
    pub tables: Vec<String>,
    pub next: Vec<String>,
    pub after: Dump,
}

const CONT: &[&str] = &["[{:db/id \"n\" :db/ident :after/attr :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true :db/fulltext false}]", "[{:db/id \"m\" :after/attr \"x\"} {:db/id \"o\" :db/ident :after/ident}]", "[{:db/id \"m\" :after/attr \"x\" :db/doc \"doc\"}]"];

/// Observe a store and carry on with it.
pub fn snap(db: &mut Db) -> Result<Snap, String> {
    let dump = guard(|| mask(db.dump()))?;
    let tables = check_file(db)?;
    let mut next = vec![format!("{:?}", super::c07::of_schema(&db.conn.current_schema()))];
    for c in CONT {
        match db.transact(c) {
            Ok(r) => next.push(format!("{} {:?}", r.tx_id, r.tempids)),
            Err(e) => return Err(format!("further transaction refused: {}", e)),
        }
    }
    let after = guard(|| mask(db.dump()))?;
    Ok(Snap { dump, tables, next, after })
}

/// Only what a store holds, without carrying on.
fn peek(img: &Image) -> Result<(Dump, Vec<String>), String> {
    let disk = DiskRef::new(img);
    let db = guard(|| Db::open(&disk.uri())).and_then(|r| r).map_err(|e| format!("the store cannot be opened: {}", e))?;
    let dump = guard(|| mask(db.dump()))?;
    Ok((dump, check_file(&db)?))
}

/// SQLite's integrity check, and the tables and indices there are.
pub fn check_file(db: &Db) -> Result<Vec<String>, String> {
    let integrity: String = db.sql.query_row("PRAGMA integrity_check", rusqlite::params![], |r| r.get(0)).map_err(|e| e.to_string())?;
    if integrity != "ok" {
        return Err(format!("integrity check: {}", integrity));
    }
    let mut st = db.sql.prepare("SELECT type || ' ' || name || ' ' || ifnull(sql, '') FROM sqlite_master ORDER BY 1").map_err(|e| e.to_string())?;
    let r = st.query_map(rusqlite::params![], |r| r.get::<_, String>(0)).map_err(|e| e.to_string())?.map(|x| x.unwrap()).collect();
    Ok(r)
}

pub fn snap_image(img: &Image) -> Result<Snap, String> {
    let disk = DiskRef::new(img);
    let s = {
        let mut db = guard(|| Db::open(&disk.uri())).and_then(|r| r).map_err(|e| format!("the store cannot be opened: {}", e))?;
        snap(&mut db)?
    };
    let db = guard(|| Db::open(&disk.uri())).and_then(|r| r).map_err(|e| format!("the store cannot be opened a second time: {}", e))?;
    if mask(db.dump()) != s.after {
        return Err("what was committed after recovery is not there after closing and opening again".into());
    }
    Ok(s)
}

pub fn diff(a: &Dump, b: &Dump) -> String {
    let mut s = String::new();
    for (n, x, y) in [("expected only", a, b), ("found only", b, a)].iter() {
        for r in x.log.difference(&y.log).take(6) {
            s.push_str(&format!("  {}: log {:?}\n", n, r));
        }
        for (r, t) in x.datoms.iter().filter(|(r, t)| y.datoms.get(r) != Some(t)).take(6) {
            s.push_str(&format!("  {}: datom {:?} {}\n", n, r, t));
        }
        if x.parts != y.parts {
            s.push_str(&format!("  {}: parts {:?}\n", n, x.parts));
        }
        for r in x.idents.difference(&y.idents).chain(x.schema.difference(&y.schema)).take(6) {
            s.push_str(&format!("  {}: metadata {:?}\n", n, r));
        }
    }
    s
}

struct Checker<'a> {
    ctx: &'a Ctx,
    /// Images already found good, with the index of the allowed state they showed.
    seen: Mutex<HashMap<(u64, u64), ()>>,
    carried: Mutex<HashSet<u64>>,
}

impl<'a> Checker<'a> {
    /// `img` must be one of the allowed states.
    fn check(&self, img: &Image, allowed: &[Arc<Snap>], what: &dyn Fn() -> String, case: &str, again: usize, n: usize) {
        let key = (hash(img), hash(&allowed.iter().map(|s| hash(&**s)).collect::<Vec<_>>()));
        if self.seen.lock().unwrap().insert(key, ()).is_some() {
            self.ctx.count("images_repeated", 1);
            return;
        }
        self.ctx.state(1);
        // The same content goes on in the same way: carry on with the first image that shows it.
        let found = peek(img).and_then(|p| {
            if let Some(a) = allowed.iter().find(|a| a.dump == p.0 && a.tables == p.1) {
                if !self.carried.lock().unwrap().insert(key.1 ^ hash(&p)) {
                    return Ok((**a).clone());
                }
            }
            self.ctx.count("carried_on", 1);
            snap_image(img)
        });
        match found {
            Err(e) => self.ctx.violation(format!("C08/{}", case.split('@').next().unwrap_or("")), case, format!("{}\n{}", what(), e)),
            Ok(s) => {
                self.ctx.transition(1);
                if let Some(i) = allowed.iter().position(|a| **a == s) {
                    self.ctx.count(if i == 0 { "recovered_before" } else { "recovered_after" }, 1);
                } else {
                    let d = allowed.iter().map(|a| diff(&a.dump, &s.dump)).min_by_key(|d| d.len()).unwrap_or_default();
                    let more = if allowed.iter().any(|a| a.dump == s.dump) { format!("the store is right but goes on differently: {:?} instead of {:?}", s.next, allowed[0].next) } else { d };
                    self.ctx.violation(format!("C08/{}", case.split('@').next().unwrap_or("")), case, format!("{}\nthe store found after the crash is none of the {} allowed:\n{}", what(), allowed.len(), more));
                    return;
                }
                // Crash while recovering: only what was found may be found again, whichever allowed state it was.
                if again > 0 && (self.ctx.thorough || n % 8 == 0) {
                    let disk = DiskRef::new(img);
                    disk.trace_from_here();
                    if let Ok(db) = Db::open(&disk.uri()) {
                        disk.mark(0);
                        drop(db);
                    }
                    let trace = disk.take_trace();
                    // Opening nothing creates a store: that's covered by the crashes during creation.
                    let limit = if self.ctx.thorough { 120 } else { 40 };
                    if trace.len() > limit {
                        self.ctx.count("recoveries_not_crashed", 1);
                        return;
                    }
                    let found: Vec<Arc<Snap>> = allowed.iter().filter(|a| ***a == s).cloned().collect();
                    for k in 1..=trace.len() {
                        if let Act::Mark(_) = trace[k - 1].act {
                            continue;
                        }
                        for i in crash_images(img, &trace, k, false) {
                            self.ctx.count("crashes_during_recovery", 1);
                            self.check(&i, &found, &|| format!("{}\nthen crashed again at operation {} of the recovery", what(), k), case, again - 1, 0);
                        }
                    }
                }
            }
        }
    }
}

/// A disk with a store that is still open when the "process" ends: what is on it, all operations applied.
pub fn start_images() -> Vec<(&'static str, Image)> {
    let schema = "[{:db/ident :t/id :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true} {:db/ident :t/l1 :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/index true} {:db/ident :t/l2 :db/valueType :db.type/long :db/cardinality :db.cardinality/one} {:db/ident :t/lm :db/valueType :db.type/long :db/cardinality :db.cardinality/many} {:db/ident :t/s :db/valueType :db.type/string :db/cardinality :db.cardinality/many} {:db/ident :t/r1 :db/valueType :db.type/ref :db/cardinality :db.cardinality/one} {:db/ident :t/f1 :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/fulltext true :db/index true}]";
    let data = "[{:db/id \"a\" :t/id \"a\" :t/l1 1 :t/lm [1 2] :t/f1 \"old text\"}]";
    let disk = DiskRef::new(&Image::new());
    let mut db = Db::open(&disk.uri()).expect("open");
    db.must(schema);
    db.must(data);
    // With a write-ahead log to recover.
    let wal = disk.image();
    drop(db);
    // Closed properly.
    let closed = disk.image();
    // Many small transactions: the log has been checkpointed and is being reused.
    let mut db = Db::open(&disk.uri()).expect("open");
    for i in 0..12 {
        db.must(&format!("[[:db/add (lookup-ref :t/id \"a\") :t/lm {}]]", 100 + i));
    }
    let busy = disk.image();
    drop(db);
    vec![("closed", closed), ("with a log", wal), ("after many transactions", busy)]
}

pub fn run(ctx: &Ctx) {
    let ops = ops();
    let chk = Checker { ctx, seen: Mutex::new(HashMap::new()), carried: Mutex::new(HashSet::new()) };

    // Creation.
    {
        let disk = DiskRef::new(&Image::new());
        disk.trace_from_here();
        let mut db = Db::open(&disk.uri()).expect("open");
        disk.mark(1);
        db.must("[{:db/ident :t/l1 :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]");
        disk.mark(2);
        drop(db);
        let trace = disk.take_trace();
        let s1 = {
            // A store just created; before its creation there's nothing, and opening nothing creates one.
            let d = DiskRef::new(&Image::new());
            let mut db = Db::open(&d.uri()).expect("open");
            Arc::new(snap(&mut db).expect("fresh store"))
        };
        let s2 = Arc::new(snap_image(&disk.image()).expect("store"));
        let points: Vec<usize> = (0..=trace.len()).collect();
        ctx.note("operations_of_creation", trace.len().to_string());
        ctx.par(points.len(), |i| {
            let k = points[i];
            let done = trace[..k].iter().filter_map(|o| if let Act::Mark(n) = o.act { Some(n) } else { None }).last().unwrap_or(0);
            let allowed = match done {
                0 => vec![s1.clone()],
                1 => vec![s1.clone(), s2.clone()],
                _ => vec![s2.clone()],
            };
            let case = format!("create@{}", k);
            if !ctx.want(&case) {
                return;
            }
            for (n, img) in crash_images(&Image::new(), &trace, k, ctx.thorough).into_iter().enumerate() {
                chk.check(&img, &allowed, &|| format!("creating a store, crash after {} operations on the disk", k), &case, 1, n + k);
            }
            ctx.trace(1);
        });
    }

    ctx.note("creation", format!("{} images, {:.1} s", chk.seen.lock().unwrap().len(), ctx.elapsed()));
    // Histories.
    let starts = start_images();
    let mut hist: Vec<(usize, Vec<usize>)> = vec![];
    let n = ops.len();
    for s in 0..starts.len() {
        for a in 0..n {
            hist.push((s, vec![a]));
        }
    }
    for s in 0..starts.len() {
        for a in 0..n {
            for b in 0..n {
                // Quick: pairs from the closed store only, with shallow crash variants.
                if ctx.thorough || s == 0 {
                    hist.push((s, vec![a, b]));
                }
            }
        }
    }
    ctx.note("histories", hist.len().to_string());
    ctx.par(hist.len(), |hi| {
        let (s, h) = &hist[hi];
        let name = format!("{}:{}", s, h.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
        if !ctx.want(&name) && !ctx.only.as_ref().map_or(false, |o| o.starts_with(&format!("{}@", name))) {
            return;
        }
        let base = &starts[*s].1;
        let disk = DiskRef::new(base);
        disk.trace_from_here();
        let mut db = Some(Db::open(&disk.uri()).expect("open"));
        let mut from = 0;
        let mut before = None;
        for (j, o) in h.iter().enumerate() {
            if j + 1 == h.len() {
                from = disk.disk.lock().unwrap().trace.len();
                before = Some(disk.image());
            }
            let r = if *o + 1 == ops.len() {
                db = None;
                match Db::open(&disk.uri()) {
                    Ok(d) => {
                        db = Some(d);
                        Ok(())
                    }
                    Err(e) => Err(e),
                }
            } else {
                let d = db.as_mut().unwrap();
                guard(|| (ops[*o].1)(d)).and_then(|r| r)
            };
            match r {
                Ok(()) => {}
                // Not applicable here (the second of two that exclude each other).
                Err(ref e) if !e.starts_with("PANIC") && j + 1 == h.len() => {
                    ctx.count("inapplicable", 1);
                }
                Err(ref e) if !e.starts_with("PANIC") => return,
                Err(e) => {
                    ctx.violation(format!("C08/{}", name), name.clone(), e);
                    return;
                }
            }
            disk.mark(j + 1);
        }
        let after = disk.image();
        let end = disk.disk.lock().unwrap().trace.len();
        drop(db);
        let trace = disk.take_trace();
        // The open store's own images (everything applied) define before and after; that the store says so
        // itself is what the other properties check.
        let (s0, s1) = match (snap_image(&before.unwrap()), snap_image(&after)) {
            (Ok(a), Ok(b)) => (Arc::new(a), Arc::new(b)),
            (a, b) => {
                ctx.violation(format!("C08/{}", name), name.clone(), format!("history: {:?}\nthe store's files as they are, everything written: {:?} {:?}", h, a.err(), b.err()));
                return;
            }
        };
        let deep = ctx.thorough || (h.len() == 1 && h[0] != LARGE);
        let again = if h.len() == 1 && (ctx.thorough || h[0] != LARGE && hi % 2 == 0) { 1 } else { 0 };
        for k in from..=trace.len() {
            if !(k == from || k == trace.len()) {
                if let Act::Mark(_) = trace[k - 1].act {
                    // The images are those before the mark, with the later state required.
                }
            }
            let allowed = if k <= end - 1 { if s0 == s1 { vec![s0.clone()] } else { vec![s0.clone(), s1.clone()] } } else { vec![s1.clone()] };
            for (n, img) in crash_images(base, &trace, k, deep).into_iter().enumerate() {
                chk.check(
                    &img,
                    &allowed,
                    &|| format!("store {}: {}\ncrash after {} of the {} operations on the disk ({} are of the last step, then it is committed and the connection closed)", starts[*s].0, h.iter().map(|o| ops[*o].0).collect::<Vec<_>>().join(", then "), k, trace.len(), end - from),
                    &format!("{}@{}", name, k),
                    again,
                    n + k,
                );
            }
        }
        ctx.trace(1);
        ctx.outcome(&(hash(&*s0), hash(&*s1)));
        ctx.sample("history", || format!("{}: {}", starts[*s].0, h.iter().map(|o| ops[*o].0).collect::<Vec<_>>().join(", then ")));
    });
}
