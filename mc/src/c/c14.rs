//! C14: observers are told exactly about the committed changes they asked for.
use crate::db::*;
use crate::h::*;
use mentat::TxObserver;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every history of commits (single, several transactions, without effect, with a refused or undone part), commits that SQLite refuses, rollbacks, registrations, replacements and unregistrations, with every placement of the delivery thread's progress between them (an observer that waits for a permit holds it at each commit), ended by waiting or by closing the store, is run on the real store; what every observer is told is compared with the log's changes of each commit",
        bounds: "3 attributes, 2 observers besides the gate, 18 operations (among them one step of the delivery thread), 2 endings; all sequences of <= 3 (quick; of 4 with the 11 operations that matter to delivery) / <= 4 (thorough; 5 with those 11)",
        assumptions: vec!["the delivery thread is scheduled between callbacks, not inside the service's own code"],
    }
}

#[derive(Clone, PartialEq, Debug)]
struct Told {
    key: String,
    txes: Vec<(i64, BTreeSet<i64>)>,
}

#[derive(Default)]
struct Board {
    told: Vec<Told>,
    /// How often the gate was reached, and how often it may be passed.
    reached: usize,
    permits: usize,
}

struct Hub {
    b: Mutex<Board>,
    c: Condvar,
}

impl Hub {
    fn wait(&self, f: impl Fn(&Board) -> bool, secs: f64) -> bool {
        let end = Instant::now() + Duration::from_secs_f64(secs);
        let mut b = self.b.lock().unwrap();
        while !f(&b) {
            let now = Instant::now();
            if now >= end {
                return false;
            }
            b = self.c.wait_timeout(b, end - now).unwrap().0;
        }
        true
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    A,
    B,
    Several,
    Nothing,
    Undone,
    Failing,
    Refused,
    Saved,
    Retract,
    Alter,
    Empty,
    Dropped,
    Reg1,
    Reg1b,
    Reg2,
    Unreg1,
    Unreg2,
    Deliver,
}

const OPS: &[Op] = &[Op::A, Op::B, Op::Several, Op::Reg1b, Op::Reg2, Op::Unreg1, Op::Unreg2, Op::Deliver, Op::Undone, Op::Failing, Op::Reg1, Op::Saved, Op::Nothing, Op::Refused, Op::Retract, Op::Alter, Op::Empty, Op::Dropped];

fn txs(op: Op) -> (Vec<&'static str>, bool) {
    match op {
        Op::A => (vec!["[[:db/add :o/e :o/a NEW]]"], true),
        Op::B => (vec!["[[:db/add :o/e :o/b NEW]]"], true),
        Op::Several => (vec!["[[:db/add :o/e :o/c NEW]]", "[[:db/add :o/e :o/a NEW]]", "[[:db/add :o/e :o/b NEW] [:db/add :o/e :o/c NEW]]"], true),
        Op::Nothing => (vec!["[[:db/add :o/e :o/z 0]]"], true),
        Op::Undone => (vec!["[[:db/add :o/e :o/a NEW]]"], false),
        Op::Failing => (vec!["[[:db/add :o/e :o/a NEW]]", "[[:db/add :o/e :o/b NEW]]"], true),
        Op::Dropped => (vec!["[[:db/add :o/e :o/a NEW]]"], false),
        Op::Refused => (vec!["[[:db/add :o/e :o/a NEW] [:db/add :o/e :o/a \"no\"]]", "[[:db/add :o/e :o/c NEW]]"], true),
        Op::Saved => (vec!["SAVE[[:db/add :o/e :o/a NEW]]", "[[:db/add :o/e :o/b NEW]]"], true),
        Op::Retract => (vec!["[[:db/retract :o/e :o/b 0]]"], true),
        Op::Alter => (vec!["[[:db/add :o/a :db/doc \"NEW\"] [:db/add :o/e :o/b NEW]]"], true),
        Op::Empty => (vec![], true),
        _ => panic!(),
    }
}

fn base() -> Db {
    let mut db = Db::new();
    let mut s = String::from("[");
    for a in ["a", "b", "c", "z"].iter() {
        s += &format!("{{:db/ident :o/{} :db/valueType :db.type/long :db/cardinality :db.cardinality/many}}", a);
    }
    db.must(&(s + "{:db/ident :o/e}]"));
    db.must("[[:db/add :o/e :o/z 0] [:db/add :o/e :o/b 0]]");
    db
}

struct Run {
    db: Option<Db>,
    hub: Arc<Hub>,
    /// Registered observers, in the store as we believe.
    observers: BTreeMap<String, BTreeSet<i64>>,
    /// Expected notifications per observer.
    want: BTreeMap<String, Vec<Vec<(i64, BTreeSet<i64>)>>>,
    commits: usize,
    passed: usize,
    ids: BTreeMap<&'static str, i64>,
    token: Arc<()>,
    n: usize,
}

impl Run {
    fn new(db: Db) -> Run {
        let hub = Arc::new(Hub { b: Mutex::new(Board::default()), c: Condvar::new() });
        let ids = ["o/a", "o/b", "o/c", "db/txInstant"].iter().map(|k| (*k, db.entid(k))).collect();
        Run { db: Some(db), hub, observers: BTreeMap::new(), want: BTreeMap::new(), commits: 0, passed: 0, ids, token: Arc::new(()), n: 100 }
    }
    fn register(&mut self, key: &str, attrs: &[&'static str], gate: bool) {
        let set: BTreeSet<i64> = attrs.iter().map(|a| self.ids[a]).collect();
        let (hub, token) = (self.hub.clone(), self.token.clone());
        let o = TxObserver::new(set.clone(), move |key, batch| {
            let _token = &token;
            let mut b = hub.b.lock().unwrap();
            b.told.push(Told { key: key.to_string(), txes: batch.into_iter().map(|(t, a)| (*t, a.clone())).collect() });
            if gate {
                b.reached += 1;
                let me = b.reached;
                hub.c.notify_all();
                while b.permits < me {
                    b = hub.c.wait(b).unwrap();
                }
            }
            hub.c.notify_all();
        });
        self.db.as_mut().unwrap().conn.register_observer(key.to_string(), Arc::new(o));
        self.observers.insert(key.to_string(), set);
    }
    fn changed(&self, tx: i64) -> BTreeSet<i64> {
        let mut st = self.db.as_ref().unwrap().sql.prepare_cached("SELECT DISTINCT a FROM timelined_transactions WHERE tx = ?").unwrap();
        let r = st.query_map(&[&tx], |r| r.get::<_, i64>(0)).unwrap().map(|x| x.unwrap()).collect();
        r
    }
    fn commit(&mut self, op: Op) -> Result<(), String> {
        let (list, commits) = txs(op);
        let db = self.db.as_mut().unwrap();
        let (sql, conn) = (&mut db.sql, &mut db.conn);
        let n = &mut self.n;
        if op == Op::Failing {
            // SQLite's COMMIT is refused when a deferred constraint doesn't hold.
            sql.execute_batch("PRAGMA foreign_keys=ON; CREATE TEMP TABLE p(x PRIMARY KEY); CREATE TEMP TABLE c(x REFERENCES p DEFERRABLE INITIALLY DEFERRED); CREATE TEMP TRIGGER t AFTER INSERT ON main.datoms BEGIN INSERT INTO c VALUES (1); END;").unwrap();
        }
        let done = guard(|| -> Result<Vec<i64>, String> {
            let mut ip = conn.begin_transaction(sql).map_err(|e| format!("begin: {}", e))?;
            let mut out = vec![];
            for t in list {
                *n += 1;
                let save = t.starts_with("SAVE");
                let t = t.trim_start_matches("SAVE").replace("NEW", &n.to_string());
                if save {
                    ip.savepoint("s").map_err(|e| format!("{}", e))?;
                }
                let r = ip.transact(t.as_str());
                if save {
                    ip.rollback_savepoint("s").map_err(|e| format!("{}", e))?;
                    ip.release_savepoint("s").map_err(|e| format!("{}", e))?;
                } else if let Ok(r) = r {
                    out.push(r.tx_id);
                }
            }
            if op == Op::Failing {
                if ip.commit().is_ok() {
                    return Err("a commit that SQLite refused succeeded".into());
                }
                Ok(vec![])
            } else if commits {
                ip.commit().map_err(|e| format!("commit: {}", e))?;
                Ok(out)
            } else {
                if op == Op::Undone {
                    ip.rollback().map_err(|e| format!("rollback: {}", e))?;
                }
                Ok(vec![])
            }
        })?;
        if op == Op::Failing {
            sql.execute_batch("DROP TRIGGER t; DROP TABLE c; DROP TABLE p; PRAGMA foreign_keys=OFF;").map_err(|e| format!("after a failed commit: {}", e))?;
        }
        let done = done?;
        let changes: Vec<(i64, BTreeSet<i64>)> = done.iter().map(|t| (*t, self.changed(*t))).collect();
        for (key, interest) in &self.observers {
            let mine: Vec<_> = changes.iter().filter(|c| !c.1.is_disjoint(interest)).cloned().collect();
            if !mine.is_empty() {
                self.want.entry(key.clone()).or_default().push(mine);
            }
        }
        if !changes.is_empty() {
            self.commits += 1;
            self.settle()?;
        }
        Ok(())
    }
    /// Wait until the delivery thread is at the gate, if there is anything to deliver.
    fn settle(&self) -> Result<(), String> {
        let n = (self.passed + 1).min(self.commits);
        if !self.hub.wait(|b| b.reached >= n, 3.0) {
            return Err(format!("the gate was told of {} commits instead of {}", self.hub.b.lock().unwrap().reached, n));
        }
        Ok(())
    }
    /// Let the delivery thread finish one commit.
    fn deliver(&mut self) -> Result<(), String> {
        self.passed += 1;
        {
            let mut b = self.hub.b.lock().unwrap();
            b.permits += 1;
            self.hub.c.notify_all();
        }
        if self.passed < self.commits {
            self.settle()
        } else {
            Ok(())
        }
    }
    fn told(&self) -> BTreeMap<String, Vec<Vec<(i64, BTreeSet<i64>)>>> {
        let mut m: BTreeMap<String, Vec<_>> = BTreeMap::new();
        for t in &self.hub.b.lock().unwrap().told {
            m.entry(t.key.clone()).or_default().push(t.txes.clone());
        }
        m
    }
    fn finish(mut self, close: bool) -> Result<u64, String> {
        let open_the_gate = |hub: &Hub| {
            hub.b.lock().unwrap().permits = usize::MAX;
            hub.c.notify_all();
        };
        if close {
            // The delivery thread may still be at the gate.
            drop(self.db.take());
            open_the_gate(&self.hub);
        } else {
            open_the_gate(&self.hub);
            // Everything is delivered in order: once the last commit has been, all have.
            self.register("sentinel", &["o/c"], false);
            let r = self.commit(Op::Several);
            let n = self.want["sentinel"].len();
            self.hub.wait(|b| b.told.iter().filter(|t| t.key == "sentinel").count() >= n, 3.0);
            r?;
            drop(self.db.take());
        }
        // Once nothing refers to the observers any more, nothing will be said any more.
        let end = Instant::now() + Duration::from_secs(5);
        while Arc::strong_count(&self.token) > 1 && Instant::now() < end {
            std::thread::yield_now();
        }
        if Arc::strong_count(&self.token) > 1 {
            return Err("the observers outlive the store".into());
        }
        let told = self.told();
        if told != self.want {
            return Err(format!("told: {:#?}\nshould have been told: {:#?}\nattributes: {:?}", told, self.want, self.ids));
        }
        Ok(hash(&told.iter().map(|(k, v)| (k.clone(), v.iter().map(|x| x.len()).collect::<Vec<_>>())).collect::<Vec<_>>()))
    }
}

fn run_one(base: &Db, seq: &[usize], close: bool) -> Result<u64, String> {
    let mut r = Run::new(base.fork());
    r.register("gate", &["db/txInstant"], true);
    r.register("one", &["o/a"], false);
    let mut step = || -> Result<(), String> {
        for o in seq {
            match OPS[*o] {
                Op::Reg1 => r.register("one", &["o/a"], false),
                Op::Reg1b => r.register("one", &["o/b"], false),
                Op::Reg2 => r.register("two", &["o/b", "o/c"], false),
                Op::Unreg1 => {
                    r.db.as_mut().unwrap().conn.unregister_observer("one");
                    r.observers.remove("one");
                }
                Op::Unreg2 => {
                    r.db.as_mut().unwrap().conn.unregister_observer("two");
                    r.observers.remove("two");
                }
                Op::Deliver => r.deliver()?,
                op => r.commit(op)?,
            }
        }
        Ok(())
    };
    match step() {
        Ok(()) => r.finish(close),
        Err(e) => {
            // Let the thread go.
            r.hub.b.lock().unwrap().permits = usize::MAX;
            r.hub.c.notify_all();
            Err(e)
        }
    }
}

/// Deliveries need something to deliver; unregistrations someone registered.
fn sensible(seq: &[usize]) -> bool {
    let (mut pending, mut one, mut two, mut any) = (0i64, true, false, false);
    for o in seq {
        match OPS[*o] {
            Op::Deliver => {
                pending -= 1;
                if pending < 0 {
                    return false;
                }
            }
            Op::Unreg1 => {
                if !one {
                    return false;
                }
                one = false;
            }
            Op::Unreg2 => {
                if !two {
                    return false;
                }
                two = false;
            }
            Op::Reg1 | Op::Reg1b => one = true,
            Op::Reg2 => two = true,
            Op::Undone | Op::Failing | Op::Dropped | Op::Empty => any = true,
            _ => {
                pending += 1;
                any = true;
            }
        }
    }
    any
}

pub fn run(ctx: &Ctx) {
    let mut seqs: Vec<Vec<usize>> = vec![];
    let full = if ctx.thorough { 4 } else { 3 };
    for len in 1..=full {
        seqs.extend(sequences(OPS.len(), len));
    }
    seqs.extend(sequences(11, full + 1));
    seqs.retain(|s| sensible(s));
    let root = Mutex::new(base());
    ctx.par_with(
        seqs.len() * 2,
        || root.lock().unwrap().fork(),
        |db, j| {
            let (s, close) = (&seqs[j / 2], j % 2 == 1);
            let case = format!("{}{}", s.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(","), if close { "c" } else { "" });
            if !ctx.want(&case) || ctx.too_many() {
                return;
            }
            ctx.trace(1);
            ctx.transition(s.len() as u64);
            let name = s.iter().map(|o| format!("{:?}", OPS[*o])).collect::<Vec<_>>().join(" ") + if close { " close" } else { "" };
            match run_one(db, s, close) {
                Ok(h) => {
                    if ctx.outcome(&h) {
                        ctx.state(1);
                    }
                    ctx.sample(if close { "close" } else { "wait" }, || name);
                }
                Err(e) => ctx.violation(format!("C14/{}", name.replace(' ', "-")), case, format!("{}\n{}", name, e)),
            }
        },
    );
}
