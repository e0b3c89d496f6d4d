//! C05: the transaction log is the exact history of the store.
use crate::db::*;
use crate::explore::*;
use crate::h::*;
use crate::val::V;
use std::collections::{BTreeMap, BTreeSet};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "breadth-first search over stores (merged on equal datoms) with every database transaction of an alphabet (single and several transactions, refused ones in the middle, committed or rolled back, data, schema, idents, fulltext, explicit instants, no-ops); after every step: each transaction's log rows == difference of the datoms before and after it + its instant as reported, ids grow, earlier rows are untouched, the log replayed from nothing gives the datoms with their transactions; in every distinct state the log is fed to an empty store and must reproduce the datoms up to renaming",
        bounds: "about 40 database transactions; histories of <= 3 (quick) / 5 (thorough); 3 entities, 7 attributes",
        assumptions: vec!["feeding a log maps entity ids to temporary ids at first mention"],
    }
}

type Row = (i64, i64, i64, V, bool);

/// Replays a log; the datoms it leads to, or the first row that contradicts what precedes it.
pub fn replay(log: &BTreeSet<Row>) -> Result<BTreeMap<Datom, i64>, String> {
    let mut ds: BTreeMap<Datom, i64> = BTreeMap::new();
    let mut txs: BTreeMap<i64, Vec<&Row>> = BTreeMap::new();
    for r in log {
        txs.entry(r.0).or_default().push(r);
    }
    for (tx, rows) in txs {
        for r in rows.iter().filter(|r| !r.4) {
            if ds.remove(&(r.1, r.2, r.3.clone())).is_none() {
                return Err(format!("log row {:?} retracts what is not there", r));
            }
        }
        for r in rows.iter().filter(|r| r.4) {
            if rows.iter().any(|s| !s.4 && s.1 == r.1 && s.2 == r.2 && s.3 == r.3) {
                return Err(format!("transaction {} both asserts and retracts {:?}", tx, r));
            }
            if ds.insert((r.1, r.2, r.3.clone()), tx).is_some() {
                return Err(format!("log row {:?} asserts what is already there", r));
            }
        }
    }
    Ok(ds)
}

/// Renames the entities of a set of datoms canonically: entity -> the set of facts about it cannot be
/// used (cycles), so the caller supplies the renaming found while feeding.
fn rename(ds: &BTreeMap<Datom, i64>, map: &BTreeMap<i64, i64>) -> Result<BTreeMap<Datom, i64>, String> {
    let m = |e: i64| -> Result<i64, String> {
        if e < 0x10000 || (0x10000000..=0x10000000).contains(&e) {
            Ok(e)
        } else {
            map.get(&e).cloned().ok_or(format!("entity {} never fed", e))
        }
    };
    let mut out = BTreeMap::new();
    for ((e, a, v), tx) in ds {
        let v = if let V::Ref(r) = v { V::Ref(m(*r)?) } else { v.clone() };
        out.insert((m(*e)?, m(*a)?, v), m(*tx)?);
    }
    Ok(out)
}

/// Feed the log of `db` (after the bootstrap transaction) to an empty store.
fn feed(db: &Db, empty: &Db) -> Result<(), String> {
    let mut to = empty.fork();
    let boot: i64 = 0x10000000;
    let mut map: BTreeMap<i64, i64> = BTreeMap::new();
    let mut txs: BTreeMap<i64, Vec<Row>> = BTreeMap::new();
    for r in db.log() {
        txs.entry(r.0).or_default().push(r);
    }
    for (tx, rows) in txs {
        if tx == boot {
            continue;
        }
        let name = |e: i64, map: &BTreeMap<i64, i64>| -> String {
            if e == tx {
                "(transaction-tx)".into()
            } else if e <= boot && e < 0x10000 || e == boot {
                e.to_string()
            } else {
                map.get(&e).map(|x| x.to_string()).unwrap_or(format!("\"e{}\"", e))
            }
        };
        let mut s = String::from("[");
        let mut fresh: BTreeSet<i64> = BTreeSet::new();
        for (_, e, a, v, added) in &rows {
            for x in std::iter::once(*e).chain(if let V::Ref(r) = v { Some(*r) } else { None }) {
                if x >= 0x10000 && x != tx && x != boot && !map.contains_key(&x) {
                    fresh.insert(x);
                }
            }
            let vs = if let V::Ref(r) = v { name(*r, &map) } else { v.edn() };
            let at = if *a < 0x10000 { a.to_string() } else { map.get(a).ok_or(format!("attribute {} used before it is defined", a))?.to_string() };
            s.push_str(&format!("[:db/{} {} {} {}]", if *added { "add" } else { "retract" }, name(*e, &map), at, vs));
        }
        s.push(']');
        let r = to.transact(&s).map_err(|e| format!("the logged transaction {} is refused by an empty store fed with the log: {}\n{}", tx, e, s))?;
        map.insert(tx, r.tx_id);
        for f in fresh {
            map.insert(f, *r.tempids.get(&format!("e{}", f)).ok_or(format!("entity {} was not created", f))?);
        }
    }
    // (Each bootstrap has its own instant.)
    let mut want = rename(&db.datoms(), &map)?;
    want.retain(|d, _| d.0 != boot);
    let mut got = to.datoms();
    got.retain(|d, _| d.0 != boot);
    if want != got {
        return Err(format!("feeding the log to an empty store gives other datoms\n{}", crate::world::diff(&want, &got)));
    }
    Ok(())
}

struct Op {
    txs: Vec<String>,
    commit: bool,
}

fn ops(es: &[i64]) -> Vec<Op> {
    let singles = vec![
        "[[:db/add $1 :t/l1 1]]",
        "[[:db/add $1 :t/l1 2]]",
        "[[:db/retract $1 :t/l1 1]]",
        "[[:db/retract $1 :t/l1 2] [:db/add $1 :t/l1 1]]",
        "[[:db/add $1 :t/lm 1] [:db/add $1 :t/lm 2] [:db/add $2 :t/lm 1]]",
        "[[:db/retract $1 :t/lm 1] [:db/add $1 :t/lm 3]]",
        "[[:db/add $1 :t/f1 \"alpha beta\"] [:db/add $2 :t/f1 \"alpha beta\"]]",
        "[[:db/add $1 :t/f1 \"gamma\"]]",
        "[[:db/retract $2 :t/f1 \"alpha beta\"]]",
        "[[:db/add $1 :t/rm $2] [:db/add $1 :t/rm $1]]",
        "[[:db/retract $1 :t/rm $2]]",
        "[{:t/uv 7 :t/rm {:t/uv 8}}]",
        "[[:db/add $1 :t/uv 7]]",
        "[[:db/retract $1 :t/uv 7] [:db/add $2 :t/uv 7]]",
        "[[:db/add (transaction-tx) :t/l1 5]]",
        "[[:db/add (transaction-tx) :db/txInstant #inst \"2031-05-05T05:05:05.000005Z\"] [:db/add $1 :t/d1 1.5]]",
        "[[:db/add (transaction-tx) :db/txInstant #inst \"1999-01-01T00:00:00Z\"]]",
        "[]",
        "[[:db/add \"n\" :t/d1 2.5] [:db/add \"m\" :t/rm \"n\"]]",
        // Schema and idents.
        "[{:db/ident :t/q :db/valueType :db.type/string :db/cardinality :db.cardinality/one}]",
        "[[:db/add $1 :t/q \"x\"]]",
        "[[:db/add :t/q :db/cardinality :db.cardinality/many]]",
        "[[:db/add :t/q :db/index true] [:db/add :t/q :db/unique :db.unique/value]]",
        "[[:db/add :t/lm :db/cardinality :db.cardinality/one]]",
        "[[:db/add $1 :db/ident :t/one]]",
        "[[:db/add $1 :db/ident :t/uno]]",
        "[[:db/retract $1 :db/ident :t/one]]",
        "[[:db/add :t/l1 :db/doc \"x\"]]",
        // Refused.
        "[[:db/add $1 :t/l1 1] [:db/add $1 :t/l1 2]]",
        "[[:db/add $2 :t/uv 7] [:db/add $1 :t/uv 7]]",
        "[[:db/add $1 :t/lm 4] [:db/add :t/l1 :db/valueType :db.type/string]]",
        "[[:db/add $1 :t/nope 4]]",
    ];
    let mut out: Vec<Op> = singles.iter().map(|s| Op { txs: vec![s.to_string()], commit: true }).collect();
    for (a, b, c) in [(0, 1, true), (4, 5, true), (19, 20, true), (0, 28, true), (9, 29, true), (30, 4, true), (4, 23, true), (12, 13, true), (6, 7, true), (24, 25, true), (0, 1, false), (19, 20, false), (18, 18, true)] {
        out.push(Op { txs: vec![singles[a].to_string(), singles[b].to_string()], commit: c });
    }
    out.push(Op { txs: vec![singles[23].to_string(), singles[0].to_string(), singles[3].to_string()], commit: true });
    for o in out.iter_mut() {
        for t in o.txs.iter_mut() {
            *t = t.replace("$1", &es[0].to_string()).replace("$2", &es[1].to_string());
        }
    }
    out
}

fn exec(db: &mut Db, op: &Op, check: bool) -> Result<bool, String> {
    let inst = 3i64;
    let log0 = db.log();
    let d0 = db.datoms();
    let mut cur = (d0.clone(), log0.clone());
    let r = guard(|| -> Result<bool, String> {
        let (s, c) = (&mut db.sql, &mut db.conn);
        let mut ip = c.begin_transaction(s).map_err(|e| format!("begin: {}", e))?;
        let mut any = false;
        for t in &op.txs {
            let r = ip.transact(t.as_str());
            if !check {
                continue;
            }
            let after = (datoms(&ip.transaction), log(&ip.transaction));
            match r {
                Err(e) => {
                    if after != cur {
                        return Err(format!("refused ({}) inside an open database transaction, but it left a trace there\n{}\n{}", e, t, crate::world::diff(&cur.0, &after.0)));
                    }
                }
                Ok(rep) => {
                    any = true;
                    if cur.1.iter().any(|r| r.0 >= rep.tx_id) {
                        return Err(format!("transaction id {} is not larger than all before", rep.tx_id));
                    }
                    if !cur.1.is_subset(&after.1) {
                        return Err(format!("earlier log rows changed: {:?}\n{}", cur.1.difference(&after.1).collect::<Vec<_>>(), t));
                    }
                    let rows: BTreeSet<(i64, i64, V, bool)> = after.1.difference(&cur.1).filter(|r| r.0 == rep.tx_id).map(|r| (r.1, r.2, r.3.clone(), r.4)).collect();
                    if rows.len() + cur.1.len() != after.1.len() {
                        return Err(format!("log rows appeared under another transaction's id: {:?}\n{}", after.1.difference(&cur.1).filter(|r| r.0 != rep.tx_id).collect::<Vec<_>>(), t));
                    }
                    let mut net: BTreeSet<(i64, i64, V, bool)> = BTreeSet::new();
                    for d in after.0.keys().filter(|d| !cur.0.contains_key(*d)) {
                        net.insert((d.0, d.1, d.2.clone(), true));
                    }
                    for d in cur.0.keys().filter(|d| !after.0.contains_key(*d)) {
                        net.insert((d.0, d.1, d.2.clone(), false));
                    }
                    if rows != net {
                        return Err(format!("the log says {:?}\nthe datoms changed by {:?}\n{}", rows, net, t));
                    }
                    let want = V::Inst(rep.tx_instant.timestamp() * 1_000_000 + rep.tx_instant.timestamp_subsec_micros() as i64);
                    let own: Vec<_> = rows.iter().filter(|r| r.0 == rep.tx_id && r.1 == inst).collect();
                    if own.len() != 1 || own[0].2 != want || !own[0].3 {
                        return Err(format!("instants of transaction {} in the log: {:?}; its report says {:?}", rep.tx_id, own, want));
                    }
                    for (d, tx) in &after.0 {
                        let w = if cur.0.contains_key(d) { cur.0[d] } else { rep.tx_id };
                        if *tx != w {
                            return Err(format!("datom {:?} is attributed to transaction {} and was asserted by {}", d, tx, w));
                        }
                    }
                    cur = after;
                }
            }
        }
        if op.commit {
            ip.commit().map_err(|e| format!("commit: {}", e))?;
        } else {
            ip.rollback().map_err(|e| format!("rollback: {}", e))?;
        }
        Ok(any)
    })
    .and_then(|r| r)?;
    if check {
        let want = if op.commit { cur } else { (d0, log0) };
        let got = (db.datoms(), db.log());
        if want != got {
            return Err(format!("after {} the store differs from the one inside the transaction\n{}", if op.commit { "commit" } else { "rollback" }, crate::world::diff(&want.0, &got.0)));
        }
        if !dump(&db.sql).other_log.is_empty() {
            return Err("rows on another timeline".into());
        }
    }
    Ok(r && op.commit)
}

pub fn run(ctx: &Ctx) {
    let empty = Db::new();
    let mut db = empty.fork();
    db.must("[{:db/ident :t/l1 :db/valueType :db.type/long :db/cardinality :db.cardinality/one} {:db/ident :t/lm :db/valueType :db.type/long :db/cardinality :db.cardinality/many} {:db/ident :t/f1 :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/fulltext true :db/index true} {:db/ident :t/rm :db/valueType :db.type/ref :db/cardinality :db.cardinality/many :db/isComponent true} {:db/ident :t/uv :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/unique :db.unique/value :db/index true} {:db/ident :t/d1 :db/valueType :db.type/double :db/cardinality :db.cardinality/one}]");
    let r = db.must("[[:db/add \"1\" :t/d1 0.5] [:db/add \"2\" :t/d1 0.5]]");
    let es = [r.tempids["1"], r.tempids["2"]];
    let ops = ops(&es);
    let name = |op: usize| format!("{}{}", ops[op].txs.join(" then "), if ops[op].commit { "" } else { " rolled back" });
    let key = |db: &Db| -> Vec<Datom> { db.datoms().into_keys().filter(|d| d.0 < 0x10000000).collect() };
    let k0 = key(&db);
    explore(
        ctx,
        &Search { name: "log", nops: ops.len(), depth: if ctx.thorough { 5 } else { 3 }, op_name: &name },
        &db,
        k0,
        |db, op| {
            let _ = exec(db, &ops[op], false);
        },
        |db, op| {
            let acc = exec(db, &ops[op], true)?;
            let (ds, lg) = (db.datoms(), db.log());
            let re = replay(&lg)?;
            if re != ds {
                return Err(format!("replaying the log does not give the datoms\n{}", crate::world::diff(&re, &ds)));
            }
            if !acc {
                ctx.count("no_commit", 1);
                return Ok(None);
            }
            let k = key(db);
            if ctx.outcome(&k) || ctx.thorough {
                FEED.with(|f| -> Result<(), String> {
                    let mut f = f.borrow_mut();
                    let e = f.get_or_insert_with(Db::new);
                    ctx.count("logs_fed", 1);
                    feed(db, e)
                })?;
            }
            Ok(Some(k))
        },
    );
}

thread_local! {
    static FEED: std::cell::RefCell<Option<Db>> = std::cell::RefCell::new(None);
}
