//! C09: storage errors at any point of any operation.
use super::c08;
use crate::db::*;
use crate::h::*;
use crate::val::kw;
use crate::vfs::*;
use mentat::{CacheDirection, Queryable, TxObserver};
use mentat_transaction::{CacheAction, Pullable};
use std::collections::BTreeSet;
use std::sync::mpsc::{channel, Receiver};
use std::sync::{Arc, Mutex};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "the real store runs on an in-memory disk; a clean run of every operation counts the calls that reach it (open, read, write, truncate, sync, size, lock, shared memory, delete, access); then the operation is run once for every such call and every kind of failure (this call only / every call from here on; I/O error / disk full), and its result, the open connection, a second connection, what observers are told, and how it all goes on are compared with the states before and after the clean operation",
        bounds: "30 operations (creation, opening, closing, transactions of every kind, several per commit with failures in between carried on from, queries of every shape, prepared queries, pull, lookups, reads, caching) x 3 start images x connection cold / warm / with a tiny page cache (quick: one combination per start image); one fault, lasting one call or until the operation ends",
        assumptions: vec!["a failed call has no effect; the medium recovers once the operation has returned"],
    }
}

type Op = fn(&mut Db) -> Result<String, String>;

fn e2s<T: std::fmt::Display>(e: T) -> String {
    e.to_string()
}

fn q(d: &Db, s: &str) -> Result<String, String> {
    let mut r = format!("{:?}", d.conn.q_once(&d.sql, s, None).map_err(e2s)?.results);
    // Order isn't defined.
    let mut c: Vec<char> = r.chars().collect();
    c.sort();
    r = c.into_iter().collect();
    Ok(r)
}

fn entity(d: &Db) -> Result<i64, String> {
    match d.conn.q_once(&d.sql, "[:find ?e . :where [?e :t/id \"a\"]]", None).map_err(e2s)?.results {
        mentat::QueryResults::Scalar(Some(mentat::Binding::Scalar(mentat::TypedValue::Ref(e)))) => Ok(e),
        x => Err(format!("{:?}", x)),
    }
}

/// Several transactions in one: whether each was accepted is returned in a mask.
const STEPS: &[&str] = &["[{:t/id \"p\" :t/l1 1 :t/f1 \"fresh text\"}]", "[{:db/ident :t/w :db/valueType :db.type/long :db/cardinality :db.cardinality/one} [:db/add :t/lm :db/index true]]", "[[:db/add (lookup-ref :t/id \"a\") :t/l1 77] [:db/add \"z\" :t/lm [5 6 7]]]"];

fn carry_on(d: &mut Db, which: usize) -> Result<String, String> {
    let (s, c) = (&mut d.sql, &mut d.conn);
    let mut ip = c.begin_transaction(s).map_err(e2s)?;
    let mut mask = 0;
    for (i, t) in STEPS.iter().enumerate() {
        if which >> i & 1 == 1 && ip.transact(*t).is_ok() {
            mask |= 1 << i;
        }
    }
    ip.commit().map_err(e2s)?;
    Ok(mask.to_string())
}

fn queries() -> Vec<(&'static str, Op)> {
    vec![
        ("query rel", |d| q(d, "[:find ?e ?v :where [?e :t/lm ?v]]")),
        ("query all", |d| q(d, "[:find ?e ?a ?v :where [?e ?a ?v]]")),
        ("query join", |d| q(d, "[:find [?v ...] :where [?e :t/id \"a\"] [?e :t/lm ?v] (not [?e :t/l1 ?v])]")),
        ("query scalar", |d| q(d, "[:find ?v . :where [?e :t/id \"a\"] [?e :t/l1 ?v]]")),
        ("query tuple", |d| q(d, "[:find [?e ?v] :where [?e :t/l1 ?v]]")),
        ("query aggregate", |d| q(d, "[:find ?a (count ?v) :where [_ ?a ?v]]")),
        ("query fulltext", |d| q(d, "[:find ?e ?v :where [(fulltext $ :t/f1 \"text\") [[?e ?v]]]]")),
        ("query log", |d| {
            let r = q(d, "[:find ?t :in $ :where [(tx-ids $ 0 999999999) [[?t]]]]")?;
            Ok(r)
        }),
        ("query pull", |d| q(d, "[:find ?e (pull ?e [:t/id :t/lm :t/f1]) :where [?e :t/id _]]")),
        ("prepared", |d| {
            let mut p = d.conn.q_prepare(&d.sql, "[:find ?e ?v :where [?e :t/l1 ?v]]", None).map_err(e2s)?;
            let a = format!("{:?}", p.run(None).map_err(e2s)?.results);
            let b = format!("{:?}", p.run(None).map_err(e2s)?.results);
            Ok(a + &b)
        }),
        ("explain", |d| d.conn.q_explain(&d.sql, "[:find ?e ?v :where [?e :t/l1 ?v]]", None).map(|_| String::new()).map_err(e2s)),
        ("pull", |d| {
            let e = entity(d)?;
            let s = d.conn.current_schema();
            let a: Vec<i64> = s.attribute_map.keys().cloned().collect();
            d.conn.pull_attributes_for_entity(&d.sql, e, a).map(|m| format!("{:?}", m)).map_err(e2s)
        }),
        ("lookup", |d| {
            let e = entity(d)?;
            let a = d.conn.lookup_value_for_attribute(&d.sql, e, &kw("t/l1")).map_err(e2s)?;
            let mut b = d.conn.lookup_values_for_attribute(&d.sql, e, &kw("t/lm")).map_err(e2s)?;
            b.sort();
            Ok(format!("{:?} {:?}", a, b))
        }),
        ("read", |d| {
            let (s, c) = (&mut d.sql, &mut d.conn);
            let r = c.begin_read(s).map_err(e2s)?;
            let a = format!("{:?}", r.q_once("[:find (count ?e) . :where [?e :t/lm _]]", None).map_err(e2s)?.results);
            let b = format!("{:?}", r.q_once("[:find (max ?v) . :where [_ :t/lm ?v]]", None).map_err(e2s)?.results);
            let m = r.pull_attributes_for_entity(65536, vec![]).map_err(e2s)?;
            Ok(a + &b + &format!("{:?}", m))
        }),
        ("cache forward", |d| cache(d, "t/lm", CacheDirection::Forward)),
        ("cache reverse", |d| cache(d, "t/lm", CacheDirection::Reverse)),
        ("cache both", |d| cache(d, "t/l1", CacheDirection::Both)),
        ("cache text", |d| cache(d, "t/f1", CacheDirection::Both)),
        ("cache, in a transaction", |d| {
            let (s, c) = (&mut d.sql, &mut d.conn);
            let mut ip = c.begin_transaction(s).map_err(e2s)?;
            ip.cache(&kw("t/l1"), CacheDirection::Forward, CacheAction::Register).map_err(e2s)?;
            ip.transact("[[:db/add (lookup-ref :t/id \"a\") :t/l1 5]]").map_err(e2s)?;
            let e = match ip.q_once("[:find ?e . :where [?e :t/id \"a\"]]", None).map_err(e2s)?.results {
                mentat::QueryResults::Scalar(Some(mentat::Binding::Scalar(mentat::TypedValue::Ref(e)))) => e,
                x => return Err(format!("{:?}", x)),
            };
            let v = ip.lookup_value_for_attribute(e, &kw("t/l1")).map_err(e2s)?;
            ip.commit().map_err(e2s)?;
            Ok(format!("{:?}", v))
        }),
        ("carry on", |d| carry_on(d, 7)),
    ]
}

fn cache(d: &mut Db, a: &str, dir: CacheDirection) -> Result<String, String> {
    let sch = d.conn.current_schema();
    let (s, c) = (&mut d.sql, &mut d.conn);
    c.cache(s, &sch, &kw(a), dir, CacheAction::Register).map(|_| String::new()).map_err(e2s)
}

/// What queries and lookups through the connection say.
fn probe(d: &Db) -> Result<Vec<String>, String> {
    guard(|| -> Result<Vec<String>, String> {
        let mut out = vec![format!("{}", d.conn.last_tx_id())];
        for s in ["[:find ?e ?v :where [?e :t/lm ?v]]", "[:find ?e ?v :where [?e :t/l1 ?v]]", "[:find ?e ?v :where [?e :t/f1 ?v]]", "[:find ?e :where [?e :t/l1 1]]", "[:find ?e :where [?e :t/f1 \"old text\"]]", "[:find ?a ?i :where [?a :db/ident ?i]]"].iter() {
            out.push(match d.conn.q_once(&d.sql, *s, None) {
                Ok(r) => match r.results {
                    mentat::QueryResults::Rel(r) => {
                        let mut v: Vec<String> = r.rows().map(|r| format!("{:?}", r)).collect();
                        v.sort();
                        format!("{:?}", v)
                    }
                    x => format!("{:?}", x),
                },
                Err(e) => format!("error {}", e),
            });
        }
        if let Ok(e) = entity(d) {
            for a in ["t/l1", "t/f1"].iter() {
                out.push(format!("{:?}", d.conn.lookup_value_for_attribute(&d.sql, e, &kw(a)).map_err(e2s)));
            }
            let mut v = d.conn.lookup_values_for_attribute(&d.sql, e, &kw("t/lm")).map_err(e2s);
            if let Ok(ref mut v) = v {
                v.sort();
            }
            out.push(format!("{:?}", v));
        }
        Ok(out)
    })
    .and_then(|r| r)
}

#[derive(Clone, PartialEq, Debug)]
struct State {
    probe: Vec<String>,
    snap: c08::Snap,
}

/// The transactions an observer was told about, and those there were when it was registered.
struct Watch {
    told: Receiver<Vec<i64>>,
    past: BTreeSet<i64>,
}

fn log_txs(d: &Db) -> BTreeSet<i64> {
    let mut st = d.sql.prepare("SELECT DISTINCT tx FROM timelined_transactions WHERE timeline = 0").unwrap();
    let r = st.query_map(rusqlite::params![], |r| r.get::<_, i64>(0)).unwrap().map(|x| x.unwrap()).collect();
    r
}

fn watch(d: &mut Db, past: BTreeSet<i64>) -> Watch {
    let (tx, told) = channel();
    let tx = Mutex::new(tx);
    let instant = d.entid("db/txInstant");
    let o = TxObserver::new(Some(instant).into_iter().collect(), move |_, batch| {
        let _ = tx.lock().unwrap().send(batch.into_iter().map(|(t, _)| *t).collect());
    });
    d.conn.register_observer("watch".to_string(), Arc::new(o));
    Watch { told, past }
}

/// What the connection says, what it goes on to do, and what is on the disk after that.
fn state(db: Option<Db>, disk: &DiskRef, w: Option<Watch>) -> Result<State, String> {
    let mut db = match db {
        Some(d) => d,
        None => guard(|| Db::open(&disk.uri())).and_then(|r| r).map_err(|e| format!("the store cannot be opened: {}", e))?,
    };
    // Another connection, while this one is open.
    {
        let other = guard(|| Db::open(&disk.uri())).and_then(|r| r).map_err(|e| format!("a second connection cannot be opened: {}", e))?;
        let (a, b) = (guard(|| c08::mask(db.dump()))?, guard(|| c08::mask(other.dump()))?);
        if a != b {
            return Err(format!("a second connection sees another store:\n{}", c08::diff(&a, &b)));
        }
    }
    if !db.sql.is_autocommit() {
        return Err("a transaction is still open".into());
    }
    let p = probe(&db)?;
    let snap = c08::snap(&mut db)?;
    drop(db);
    let again = guard(|| Db::open(&disk.uri())).and_then(|r| r).map_err(|e| format!("the store cannot be opened again: {}", e))?;
    let d = guard(|| c08::mask(again.dump()))?;
    if d != snap.after {
        return Err(format!("after closing and opening, the store differs from what the connection said:\n{}", c08::diff(&snap.after, &d)));
    }
    if let Some(w) = w {
        // The worker is done when nobody can tell us anything any more.
        let told: Vec<i64> = w.told.iter().flat_map(|x| x).collect();
        let new: Vec<i64> = log_txs(&again).difference(&w.past).cloned().collect();
        if told != new {
            return Err(format!("an observer of every transaction was told of {:?}, but what was committed since it was registered is {:?}", told, new));
        }
    }
    Ok(State { probe: p, snap })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Create,
    Open,
    Close,
    Op(usize),
}

#[derive(Clone, Copy, Debug)]
struct Job {
    start: usize,
    /// 0 cold, 1 warm, 2 tiny page cache.
    mode: usize,
    what: What,
}

pub fn run(ctx: &Ctx) {
    let starts = c08::start_images();
    let empty = Image::new();
    let writes = c08::ops();
    let reads = queries();
    let nw = writes.len() - 1;
    let nops = nw + reads.len();
    let op = |i: usize, d: &mut Db| -> Result<String, String> {
        guard(|| if i < nw { (writes[i].1)(d).map(|_| String::new()) } else { (reads[i - nw].1)(d) }).and_then(|r| r)
    };
    let opname = |i: usize| if i < nw { writes[i].0 } else { reads[i - nw].0 };
    let image = |j: &Job| if j.what == What::Create { &empty } else { &starts[j.start].1 };
    let prepare = |j: &Job, disk: &DiskRef| -> Option<Db> {
        if let What::Create | What::Open = j.what {
            return None;
        }
        let db = Db::open(&disk.uri()).expect("open");
        match j.mode {
            0 => {}
            1 => {
                let _ = db.dump();
            }
            _ => db.sql.execute_batch("PRAGMA cache_size=2;").expect("cache_size"),
        }
        Some(db)
    };
    let past: Vec<BTreeSet<i64>> = starts.iter().map(|s| log_txs(&Db::open(&DiskRef::new(&s.1).uri()).expect("open"))).collect();
    let watched = |j: &Job, db: &mut Option<Db>| match j.what {
        What::Op(_) => db.as_mut().map(|d| watch(d, past[j.start].clone())),
        _ => None,
    };
    // The operation, under whatever fault is armed.
    let perform = |j: &Job, disk: &DiskRef, db: &mut Option<Db>| -> Result<String, String> {
        match j.what {
            What::Create | What::Open => {
                let r = guard(|| Db::open(&disk.uri())).and_then(|r| r)?;
                *db = Some(r);
                Ok(String::new())
            }
            What::Close => {
                let d = db.take();
                guard(|| drop(d)).map(|_| String::new())
            }
            What::Op(i) => op(i, db.as_mut().unwrap()),
        }
    };
    let mut jobs: Vec<Job> = vec![Job { start: 0, mode: 0, what: What::Create }];
    for start in 0..starts.len() {
        for mode in 0..3 {
            if !ctx.thorough && mode != [0, 1, 2][start] {
                continue;
            }
            if mode == 0 {
                jobs.push(Job { start, mode, what: What::Open });
            }
            jobs.push(Job { start, mode, what: What::Close });
            for i in 0..nops {
                jobs.push(Job { start, mode, what: What::Op(i) });
            }
        }
    }
    let name = |j: &Job| match j.what {
        What::Op(i) => opname(i).to_string(),
        ref w => format!("{:?}", w).to_lowercase(),
    };
    // Clean runs: how many calls, and the states before and after.
    struct Clean {
        calls: u64,
        kinds: Vec<Kind>,
        result: Result<String, String>,
        before: State,
        after: State,
        /// For the operation that carries on: the state for each set of accepted steps.
        subsets: Vec<State>,
    }
    let carry = nops - 1;
    let clean: Vec<std::sync::Mutex<Option<Arc<Clean>>>> = jobs.iter().map(|_| std::sync::Mutex::new(None)).collect();
    ctx.par(jobs.len(), |i| {
        let j = &jobs[i];
        let before = {
            let disk = DiskRef::new(image(j));
            let mut db = prepare(j, &disk);
            let w = watched(j, &mut db);
            state(db, &disk, w)
        };
        let disk = DiskRef::new(image(j));
        let mut db = prepare(j, &disk);
        let w = watched(j, &mut db);
        disk.arm(None);
        let result = perform(j, &disk, &mut db);
        let (calls, kinds, _) = disk.disarm();
        let after = state(db, &disk, w);
        let subsets = if j.what == What::Op(carry) {
            (0..8)
                .map(|m| {
                    let disk = DiskRef::new(image(j));
                    let mut db = prepare(j, &disk).unwrap();
                    carry_on(&mut db, m).expect("clean");
                    state(Some(db), &disk, None).expect("clean")
                })
                .collect()
        } else {
            vec![]
        };
        match (before, after) {
            (Ok(before), Ok(after)) => *clean[i].lock().unwrap() = Some(Arc::new(Clean { calls, kinds, result, before, after, subsets })),
            (a, b) => ctx.violation(format!("C09/clean/{}", name(j)), format!("{}/{}/{}/clean", j.start, j.mode, name(j)), format!("without any fault: {:?} {:?}", a.err(), b.err())),
        }
    });
    // Faults.
    let mut runs: Vec<(usize, Fault)> = vec![];
    for (i, c) in clean.iter().enumerate() {
        if let Some(c) = c.lock().unwrap().as_ref() {
            ctx.count("calls_to_the_disk", c.calls);
            ctx.count("operations", 1);
            for at in 0..c.calls {
                for (len, full) in [(1, false), (u64::max_value(), false), (1, true), (u64::max_value(), true)].iter() {
                    // A full disk only concerns writes.
                    if *full && c.kinds[at as usize] != Kind::Write {
                        continue;
                    }
                    runs.push((i, Fault { at, len: *len, full: *full }));
                }
            }
        }
    }
    ctx.note("clean", format!("{:.1} s, {} faults to inject", ctx.elapsed(), runs.len()));
    ctx.par(runs.len(), |r| {
        let (i, f) = runs[r];
        let j = &jobs[i];
        let case = format!("{}/{}/{}/{}+{}{}", j.start, j.mode, name(j), f.at, if f.len == 1 { "1" } else { "on" }, if f.full { "full" } else { "" });
        if !ctx.want(&case) || ctx.too_many() {
            return;
        }
        let c = clean[i].lock().unwrap().as_ref().unwrap().clone();
        let disk = DiskRef::new(image(j));
        let mut db = prepare(j, &disk);
        let w = watched(j, &mut db);
        disk.arm(Some(f));
        let result = perform(j, &disk, &mut db);
        let (_, _, fired) = disk.disarm();
        ctx.transition(1);
        let describe = |what: String| {
            format!(
                "store {}, connection {}: {}; call {} of {} on the disk fails ({:?}{}{})\n{}",
                starts[j.start].0,
                ["cold", "warm", "with a page cache of 2 pages"][j.mode],
                name(j),
                f.at + 1,
                c.calls,
                c.kinds[f.at as usize],
                if f.full { ", disk full" } else { "" },
                if f.len == 1 { "" } else { ", and all calls after it" },
                what
            )
        };
        let bad = |what: String| ctx.violation(format!("C09/{}/{:?}/{}", name(j), c.kinds[f.at as usize], hash(&what.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>())), case.clone(), describe(what));
        if fired.is_empty() {
            // The operation doesn't make exactly the same calls twice (hash maps are iterated over), and
            // this time there were fewer of them: it has to be as good as the clean run.
            ctx.count("faults_beyond_the_end", 1);
        }
        if let Err(ref e) = result {
            if e.starts_with("PANIC") {
                bad(format!("panicked: {}", e));
                return;
            }
        }
        let mut allowed: Vec<&State> = vec![];
        match (&result, &c.result) {
            (Ok(x), _) if j.what == What::Op(carry) => allowed.push(&c.subsets[x.parse::<usize>().unwrap()]),
            (Ok(x), Ok(y)) => {
                if x != y {
                    bad(format!("reported success with another result: {} instead of {}", x, y));
                    return;
                }
                allowed.push(&c.after);
                // Several transactions, one of them refused by design.
                if let What::Op(k) = j.what {
                    if opname(k) == "refused" {
                        allowed.push(&c.before);
                    }
                }
            }
            (Ok(x), Err(y)) => {
                bad(format!("succeeded ({}) where it is refused: {}", x, y));
                return;
            }
            (Err(_), _) => {
                allowed.push(&c.before);
                // A read changes nothing; what it cached is not observable.
                if c.before.snap.dump == c.after.snap.dump {
                    allowed.push(&c.after);
                }
            }
        }
        match state(db, &disk, w) {
            Err(e) => bad(format!("the operation returned {:?}; afterwards: {}", result, e)),
            Ok(s) => {
                if !allowed.contains(&&s) {
                    let a = allowed[0];
                    let what = if a.probe != s.probe {
                        format!("the connection answers {:?} instead of {:?}", s.probe, a.probe)
                    } else if a.snap.dump != s.snap.dump {
                        c08::diff(&a.snap.dump, &s.snap.dump)
                    } else {
                        format!("the store goes on differently: {:?} instead of {:?}\n{}", s.snap.next, a.snap.next, c08::diff(&a.snap.after, &s.snap.after))
                    };
                    bad(format!("the operation returned {:?}; afterwards, {}", result, what));
                    return;
                }
                ctx.state(1);
                ctx.trace(1);
                ctx.count(if result.is_ok() { "succeeded_despite_the_fault" } else { "reported" }, 1);
                ctx.outcome(&(name(j), c.kinds[f.at as usize], f.len == 1, f.full, result.is_ok()));
                ctx.sample(if result.is_ok() { "ok" } else { "err" }, || describe(format!("-> {:?}", result)));
            }
        }
    });
}
