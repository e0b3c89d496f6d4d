//! A real store with a test schema installed, and the model of it.
use crate::db::{Datom, Db};
use crate::model::*;
use crate::val::V;
use std::collections::BTreeMap;

pub struct World {
    pub db: Db,
    pub m: Model,
    pub ids: BTreeMap<&'static str, i64>,
    pub tx_instant: i64,
    /// The log as of the last step.
    pub log: std::collections::BTreeSet<(i64, i64, i64, V, bool)>,
}

impl World {
    /// A fresh store with these attributes, and `n` entities that have a :t/name.
    pub fn new(attrs: &[Attr], n: usize) -> (World, Vec<i64>) {
        let mut db = Db::new();
        let mut s = String::from("[{:db/ident :t/name :db/valueType :db.type/string :db/cardinality :db.cardinality/one}");
        for a in attrs {
            s.push_str(&a.schema_edn());
        }
        s.push(']');
        db.must(&s);
        let mut es = vec![];
        if n > 0 {
            let tx: String = (0..n).map(|i| format!("[:db/add \"n{}\" :t/name \"n{}\"]", i, i)).collect();
            let r = db.must(&format!("[{}]", tx));
            for i in 0..n {
                es.push(r.tempids[&format!("n{}", i)]);
            }
        }
        let mut m = Model { attrs: BTreeMap::new(), datoms: db.datoms() };
        let mut ids = BTreeMap::new();
        for a in attrs {
            let e = db.entid(a.name);
            m.attrs.insert(e, a.clone());
            ids.insert(a.name, e);
        }
        let name = db.entid("t/name");
        m.attrs.insert(name, at("t/name", Vt::Str, false));
        ids.insert("t/name", name);
        let tx_instant = db.entid("db/txInstant");
        m.attrs.insert(tx_instant, at("db/txInstant", Vt::Inst, false));
        ids.insert("db/txInstant", tx_instant);
        let log = db.log();
        (World { db, m, ids, tx_instant, log }, es)
    }
    pub fn fork(&self) -> World {
        World { db: self.db.fork(), m: self.m.clone(), ids: self.ids.clone(), tx_instant: self.tx_instant, log: self.log.clone() }
    }
    pub fn a(&self, name: &str) -> i64 {
        self.ids[name]
    }

    /// Run one transaction (text `edn`, meaning `terms`) on the real store and compare everything with the
    /// model. Ok(true): accepted as the model says; Ok(false): refused as the model says.
    pub fn step(&mut self, terms: &[T], edn: &str) -> Result<bool, String> {
        self.step_with(Ok(terms), edn, |db| db.transact(edn))
    }

    /// Like `step`, for any way of submitting the transaction and for notations that must be refused.
    /// Tempids whose name starts with '_' stand for the unnamed ones of a notation: never reported.
    pub fn step_with(&mut self, terms: Result<&[T], Reject>, edn: &str, submit: impl FnOnce(&mut Db) -> Result<mentat::TxReport, String>) -> Result<bool, String> {
        let before = self.m.datoms.clone();
        let log_before = self.log.clone();
        let next_tx = log_before.iter().map(|r| r.0).max().unwrap_or(0) + 1;
        let actual = submit(&mut self.db);
        let after = self.db.datoms();
        let log_after = self.db.log();
        let tx_guess = match &actual {
            Ok(r) => r.tx_id,
            Err(_) => next_tx,
        };
        let verdict = terms.and_then(|terms| self.m.resolve(terms, tx_guess));
        let (ground, res) = match verdict {
            Ok(x) => x,
            Err(rej) => return self.refused(rej, &actual, &before, &after, &log_before, &log_after, edn),
        };
        // Hand out entids: what the report says, provided it is a legitimate allocation.
        let mut ids: BTreeMap<String, i64> = res.known.clone();
        let mut max_used = 0x10000 - 1;
        for (e, _, v) in before.keys() {
            for x in std::iter::once(*e).chain(if let V::Ref(r) = v { Some(*r) } else { None }) {
                if x < 0x10000000 {
                    max_used = max_used.max(x);
                }
            }
        }
        for (_, e, _, v, _) in &log_before {
            for x in std::iter::once(*e).chain(if let V::Ref(r) = v { Some(*r) } else { None }) {
                if x < 0x10000000 {
                    max_used = max_used.max(x);
                }
            }
        }
        match &actual {
            Ok(r) => {
                let reported: std::collections::BTreeSet<&String> = r.tempids.keys().collect();
                let expected: std::collections::BTreeSet<&String> = res.known.keys().chain(res.fresh.iter().flatten()).filter(|t| !t.starts_with('_')).collect();
                if reported != expected {
                    return Err(format!("report names tempids {:?}, the transaction has {:?}\n{}", reported, expected, edn));
                }
                for (t, e) in res.known.iter().filter(|t| !t.0.starts_with('_')) {
                    if r.tempids[t] != *e {
                        return Err(format!("tempid {:?} should resolve to existing entity {}, reported {}\n{}", t, e, r.tempids[t], edn));
                    }
                }
                let mut used: BTreeMap<i64, usize> = BTreeMap::new();
                let mut hidden: Vec<&std::collections::BTreeSet<String>> = vec![];
                for (i, g) in res.fresh.iter().enumerate() {
                    let es: std::collections::BTreeSet<i64> = g.iter().filter(|t| !t.starts_with('_')).map(|t| r.tempids[t]).collect();
                    if es.is_empty() {
                        hidden.push(g);
                        continue;
                    }
                    if es.len() != 1 {
                        return Err(format!("tempids {:?} name one new entity, reported {:?}\n{}", g, es, edn));
                    }
                    let e = *es.iter().next().unwrap();
                    if let Some(j) = used.insert(e, i) {
                        return Err(format!("new entities {:?} and {:?} share entid {}\n{}", res.fresh[j], g, e, edn));
                    }
                    if e <= max_used || e >= 0x10000000 {
                        return Err(format!("new entity {:?} was given entid {}, which is not fresh (largest in use {})\n{}", g, e, max_used, edn));
                    }
                    for t in g {
                        ids.insert(t.clone(), e);
                    }
                }
                // The unnamed new entities: any one-to-one choice of fresh entids that explains the datoms.
                if !hidden.is_empty() {
                    let mut cand: Vec<i64> = vec![];
                    for ((e, _, v), _) in after.iter().filter(|d| !before.contains_key(d.0)) {
                        for x in std::iter::once(*e).chain(if let V::Ref(r) = v { Some(*r) } else { None }) {
                            if x > max_used && x < 0x10000000 && !used.contains_key(&x) && !cand.contains(&x) {
                                cand.push(x);
                            }
                        }
                    }
                    if cand.len() != hidden.len() {
                        return Err(format!("the transaction creates {} unnamed entities, the store got {:?}\n{}\n{}", hidden.len(), cand, edn, diff(&before, &after)));
                    }
                    let mut best = None;
                    for p in crate::h::permutations(cand.len()) {
                        let mut ids2 = ids.clone();
                        for (i, g) in hidden.iter().enumerate() {
                            for t in g.iter() {
                                ids2.insert(t.clone(), cand[p[i]]);
                            }
                        }
                        if let Ok(delta) = self.m.effect(&ground, &ids2) {
                            let mut m2 = self.m.clone();
                            m2.apply(&delta, r.tx_id);
                            let ok = after.iter().filter(|d| (d.0).0 != r.tx_id).eq(m2.datoms.iter().filter(|d| (d.0).0 != r.tx_id));
                            if ok || best.is_none() {
                                best = Some(ids2);
                            }
                            if ok {
                                break;
                            }
                        } else if best.is_none() {
                            best = Some(ids2);
                        }
                    }
                    ids = best.unwrap();
                }
            }
            Err(_) => {
                for (i, g) in res.fresh.iter().enumerate() {
                    for t in g {
                        ids.insert(t.clone(), max_used + 1 + i as i64);
                    }
                }
            }
        }
        match self.m.effect(&ground, &ids) {
            Err(rej) => self.refused(rej, &actual, &before, &after, &log_before, &log_after, edn),
            Ok(mut delta) => {
                let r = match actual {
                    Err(e) => return Err(format!("refused ({}) a transaction that is valid, with effect {:?}\n{}", e, delta, edn)),
                    Ok(r) => r,
                };
                if log_before.iter().any(|l| l.0 >= r.tx_id) {
                    return Err(format!("transaction id {} does not exceed earlier ones\n{}", r.tx_id, edn));
                }
                // Every transaction asserts its own :db/txInstant.
                let inst = V::Inst(r.tx_instant.timestamp() * 1_000_000 + r.tx_instant.timestamp_subsec_micros() as i64);
                if !delta.iter().any(|d| d.0 == r.tx_id && d.1 == self.tx_instant && d.3) {
                    delta.insert((r.tx_id, self.tx_instant, inst, true));
                } else if !delta.contains(&(r.tx_id, self.tx_instant, inst.clone(), true)) {
                    return Err(format!("report says the transaction happened at {:?}, not the instant it asserts\n{}", inst, edn));
                }
                self.m.apply(&delta, r.tx_id);
                if after != self.m.datoms {
                    return Err(format!("datoms after the transaction differ from the model\n{}\n{}", edn, diff(&self.m.datoms, &after)));
                }
                let got: Delta = log_after.difference(&log_before).filter(|l| l.0 == r.tx_id).map(|l| (l.1, l.2, l.3.clone(), l.4)).collect();
                if got != delta {
                    return Err(format!("the log has {:?}, the transaction did {:?}\n{}", got, delta, edn));
                }
                if log_after.len() != log_before.len() + delta.len() || !log_before.is_subset(&log_after) {
                    return Err(format!("the log's earlier transactions changed\n{}", edn));
                }
                self.log = log_after;
                Ok(true)
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn refused(
        &self,
        rej: Reject,
        actual: &Result<mentat::TxReport, String>,
        before: &BTreeMap<Datom, i64>,
        after: &BTreeMap<Datom, i64>,
        lb: &std::collections::BTreeSet<(i64, i64, i64, V, bool)>,
        la: &std::collections::BTreeSet<(i64, i64, i64, V, bool)>,
        edn: &str,
    ) -> Result<bool, String> {
        match actual {
            Ok(_) => Err(format!("accepted a transaction that must be refused ({:?})\n{}\n{}", rej, edn, diff(before, after))),
            Err(e) if e.starts_with("PANIC") => Err(format!("panicked instead of refusing ({:?}): {}\n{}", rej, e, edn)),
            Err(_) if before != after || lb != la => Err(format!("a refused transaction ({:?}) left a trace\n{}\n{}", rej, edn, diff(before, after))),
            Err(_) => Ok(false),
        }
    }
}

pub fn diff(want: &BTreeMap<Datom, i64>, got: &BTreeMap<Datom, i64>) -> String {
    let mut s = String::new();
    for (d, tx) in want {
        if got.get(d) != Some(tx) {
            s.push_str(&format!("  expected {:?} tx {}, {}\n", d, tx, got.get(d).map(|t| format!("found tx {}", t)).unwrap_or_else(|| "missing".into())));
        }
    }
    for (d, tx) in got {
        if !want.contains_key(d) {
            s.push_str(&format!("  unexpected {:?} tx {}\n", d, tx));
        }
    }
    s
}

/// Run `f` for every index on all cores, each thread with its own copy of `base`, with few
/// variables for every other index.
pub fn par(ctx: &crate::h::Ctx, base: &World, n: usize, f: impl Fn(&World, usize) + Sync) {
    let m = std::sync::Mutex::new(base.fork());
    ctx.par_with(n, || m.lock().unwrap().fork(), |w, i| {
        w.db.limit(i % 2 == 1);
        f(w, i)
    });
}
