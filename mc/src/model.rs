//! The reference model of a store: a set of datoms, a schema, and what a transaction does to them.
//! Written from the documented behaviour, as plainly as possible; shares no code with the implementation.
use crate::db::Datom;
use crate::val::V;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Vt {
    Ref,
    Bool,
    Inst,
    Long,
    Dbl,
    Str,
    Kw,
    Uuid,
}

impl Vt {
    pub fn ident(self) -> &'static str {
        match self {
            Vt::Ref => "ref",
            Vt::Bool => "boolean",
            Vt::Inst => "instant",
            Vt::Long => "long",
            Vt::Dbl => "double",
            Vt::Str => "string",
            Vt::Kw => "keyword",
            Vt::Uuid => "uuid",
        }
    }
    pub fn of(v: &V) -> Option<Vt> {
        Some(match v {
            V::Ref(_) => Vt::Ref,
            V::Bool(_) => Vt::Bool,
            V::Inst(_) => Vt::Inst,
            V::Long(_) => Vt::Long,
            V::Dbl(_) => Vt::Dbl,
            V::Str(_) => Vt::Str,
            V::Kw(_) => Vt::Kw,
            V::Uuid(_) => Vt::Uuid,
            V::Bad(_) => return None,
        })
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Uniq {
    No,
    Value,
    Identity,
}

#[derive(Clone, Debug)]
pub struct Attr {
    pub name: &'static str,
    pub vt: Vt,
    pub many: bool,
    pub uniq: Uniq,
    pub fulltext: bool,
    pub component: bool,
    pub index: bool,
}

pub const fn at(name: &'static str, vt: Vt, many: bool) -> Attr {
    Attr { name, vt, many, uniq: Uniq::No, fulltext: false, component: false, index: false }
}

impl Attr {
    pub const fn uniq(mut self, u: Uniq) -> Attr {
        self.uniq = u;
        self.index = true;
        self
    }
    pub const fn fts(mut self) -> Attr {
        self.fulltext = true;
        self.index = true;
        self
    }
    pub const fn comp(mut self) -> Attr {
        self.component = true;
        self
    }
    pub const fn idx(mut self) -> Attr {
        self.index = true;
        self
    }
    pub fn schema_edn(&self) -> String {
        let mut s = format!(
            "{{:db/ident :{} :db/valueType :db.type/{} :db/cardinality :db.cardinality/{}",
            self.name,
            self.vt.ident(),
            if self.many { "many" } else { "one" }
        );
        match self.uniq {
            Uniq::No => {}
            Uniq::Value => s.push_str(" :db/unique :db.unique/value"),
            Uniq::Identity => s.push_str(" :db/unique :db.unique/identity"),
        }
        if self.index {
            s.push_str(" :db/index true");
        }
        if self.fulltext {
            s.push_str(" :db/fulltext true");
        }
        if self.component {
            s.push_str(" :db/isComponent true");
        }
        s.push('}');
        s
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum E {
    Id(i64),
    Tmp(String),
    Look(i64, V),
    Tx,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum X {
    Val(V),
    Tmp(String),
    Look(i64, V),
    Tx,
}

/// A flat [:db/add e a v] or [:db/retract e a v].
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct T {
    pub add: bool,
    pub e: E,
    pub a: i64,
    pub v: X,
}

pub fn t(add: bool, e: E, a: i64, v: X) -> T {
    T { add, e, a, v }
}

#[derive(Clone, Debug)]
pub struct Model {
    pub attrs: BTreeMap<i64, Attr>,
    pub datoms: BTreeMap<Datom, i64>,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Reject {
    /// The notation itself is not allowed.
    Notation,
    /// Mentions an entity, attribute or ident that does not exist.
    Unknown,
    BadLookup,
    ConflictingUpsert,
    UnresolvedRetract,
    Type,
    CardinalityOne,
    AddAndRetract,
    Unique,
}

/// What resolution says about tempids before entids are handed out.
#[derive(Clone, Debug, Default)]
pub struct Resolution {
    /// Tempids that name entities already in the store.
    pub known: BTreeMap<String, i64>,
    /// Groups of tempids that name the same new entity.
    pub fresh: Vec<BTreeSet<String>>,
}

/// The net effect of a transaction: (e, a, v, added).
pub type Delta = BTreeSet<(i64, i64, V, bool)>;

impl Model {
    pub fn attr(&self, a: i64) -> &Attr {
        &self.attrs[&a]
    }
    pub fn find_av(&self, a: i64, v: &V) -> Option<i64> {
        self.datoms.keys().find(|d| d.1 == a && &d.2 == v).map(|d| d.0)
    }

    /// Which entities do the tempids of these terms name? The least fixpoint of: a tempid asserted
    /// with an identity attribute and a value that an entity already has names that entity.
    pub fn resolve(&self, terms: &[T], tx: i64) -> Result<(Vec<T>, Resolution), Reject> {
        // Lookup refs name entities of the store as it was before the transaction.
        let mut ts: Vec<T> = vec![];
        for t in terms {
            let e = match &t.e {
                E::Look(a, v) => E::Id(self.find_av(*a, v).ok_or(Reject::BadLookup)?),
                E::Tx => E::Id(tx),
                e => e.clone(),
            };
            let v = match &t.v {
                X::Look(a, v) => X::Val(V::Ref(self.find_av(*a, v).ok_or(Reject::BadLookup)?)),
                X::Tx => X::Val(V::Ref(tx)),
                v => v.clone(),
            };
            ts.push(T { add: t.add, e, a: t.a, v });
        }
        let mut known: BTreeMap<String, i64> = BTreeMap::new();
        loop {
            let mut changed = false;
            for t in &ts {
                if !t.add || self.attr(t.a).uniq != Uniq::Identity {
                    continue;
                }
                if let E::Tmp(tmp) = &t.e {
                    let v = match &t.v {
                        X::Val(v) => Some(v.clone()),
                        X::Tmp(x) => known.get(x).map(|e| V::Ref(*e)),
                        _ => None,
                    };
                    if let Some(found) = v.and_then(|v| self.find_av(t.a, &v)) {
                        match known.get(tmp) {
                            None => {
                                known.insert(tmp.clone(), found);
                                changed = true;
                            }
                            Some(e) if *e != found => return Err(Reject::ConflictingUpsert),
                            _ => {}
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        // Substitute what is known.
        for t in ts.iter_mut() {
            if let E::Tmp(x) = &t.e {
                if let Some(e) = known.get(x) {
                    t.e = E::Id(*e);
                }
            }
            if let X::Tmp(x) = &t.v {
                if let Some(e) = known.get(x) {
                    t.v = X::Val(V::Ref(*e));
                }
            }
        }
        // New entities: one for every tempid of an assertion, except that tempids asserted with the
        // same identity attribute and value name the same one.
        let mut groups: Vec<BTreeSet<String>> = vec![];
        for t in ts.iter().filter(|t| t.add) {
            for n in tmps(t) {
                if !groups.iter().any(|g| g.contains(&n)) {
                    groups.push(std::iter::once(n).collect());
                }
            }
        }
        for (i, t) in ts.iter().enumerate() {
            for u in ts[i + 1..].iter() {
                if t.add && u.add && t.a == u.a && t.v == u.v && self.attr(t.a).uniq == Uniq::Identity {
                    if let (E::Tmp(x), E::Tmp(y)) = (&t.e, &u.e) {
                        let i = groups.iter().position(|g| g.contains(x)).unwrap();
                        let j = groups.iter().position(|g| g.contains(y)).unwrap();
                        if i != j {
                            let g = groups.remove(i.max(j));
                            groups[i.min(j)].extend(g);
                        }
                    }
                }
            }
        }
        for t in ts.iter().filter(|t| !t.add) {
            for n in tmps(t) {
                if !groups.iter().any(|g| g.contains(&n)) {
                    return Err(Reject::UnresolvedRetract);
                }
            }
        }
        Ok((ts, Resolution { known, fresh: groups }))
    }

    /// The effect of ground terms, or why they are refused.
    pub fn effect(&self, terms: &[T], ids: &BTreeMap<String, i64>) -> Result<Delta, Reject> {
        let mut adds: BTreeSet<Datom> = BTreeSet::new();
        let mut rets: BTreeSet<Datom> = BTreeSet::new();
        for t in terms {
            let e = match &t.e {
                E::Id(e) => *e,
                E::Tmp(x) => ids[x],
                _ => unreachable!(),
            };
            let v = match &t.v {
                X::Val(v) => v.clone(),
                X::Tmp(x) => V::Ref(ids[x]),
                _ => unreachable!(),
            };
            if Vt::of(&v) != Some(self.attr(t.a).vt) {
                return Err(Reject::Type);
            }
            if t.add {
                adds.insert((e, t.a, v));
            } else {
                rets.insert((e, t.a, v));
            }
        }
        if adds.intersection(&rets).next().is_some() {
            return Err(Reject::AddAndRetract);
        }
        for d in &adds {
            if !self.attr(d.1).many && adds.iter().any(|f| f.0 == d.0 && f.1 == d.1 && f.2 != d.2) {
                return Err(Reject::CardinalityOne);
            }
        }
        let mut now: BTreeSet<Datom> = self.datoms.keys().cloned().collect();
        for d in &rets {
            now.remove(d);
        }
        for d in &adds {
            if !self.attr(d.1).many {
                now.retain(|f| !(f.0 == d.0 && f.1 == d.1 && f.2 != d.2));
            }
            now.insert(d.clone());
        }
        // Unique values belong to at most one entity.
        let mut seen: BTreeMap<(i64, &V), i64> = BTreeMap::new();
        for d in &now {
            if self.attrs.get(&d.1).map(|a| a.uniq != Uniq::No).unwrap_or(false) && seen.insert((d.1, &d.2), d.0).is_some() {
                return Err(Reject::Unique);
            }
        }
        let mut delta = Delta::new();
        for d in &now {
            if !self.datoms.contains_key(d) {
                delta.insert((d.0, d.1, d.2.clone(), true));
            }
        }
        for d in self.datoms.keys() {
            if !now.contains(d) {
                delta.insert((d.0, d.1, d.2.clone(), false));
            }
        }
        Ok(delta)
    }

    pub fn apply(&mut self, delta: &Delta, tx: i64) {
        for (e, a, v, added) in delta {
            if *added {
                self.datoms.insert((*e, *a, v.clone()), tx);
            } else {
                self.datoms.remove(&(*e, *a, v.clone()));
            }
        }
    }

    pub fn term_edn(&self, t: &T) -> String {
        let e = match &t.e {
            E::Id(e) => e.to_string(),
            E::Tmp(x) => format!("\"{}\"", x),
            E::Look(a, v) => format!("(lookup-ref :{} {})", self.attr(*a).name, v.edn()),
            E::Tx => "(transaction-tx)".into(),
        };
        let v = match &t.v {
            X::Val(v) => v.edn(),
            X::Tmp(x) => format!("\"{}\"", x),
            X::Look(a, v) => format!("(lookup-ref :{} {})", self.attr(*a).name, v.edn()),
            X::Tx => "(transaction-tx)".into(),
        };
        format!("[:db/{} {} :{} {}]", if t.add { "add" } else { "retract" }, e, self.attr(t.a).name, v)
    }

    pub fn tx_edn(&self, ts: &[T]) -> String {
        format!("[{}]", ts.iter().map(|t| self.term_edn(t)).collect::<Vec<_>>().join(" "))
    }
}

fn tmps(t: &T) -> Vec<String> {
    let mut v = vec![];
    if let E::Tmp(x) = &t.e {
        v.push(x.clone());
    }
    if let X::Tmp(x) = &t.v {
        v.push(x.clone());
    }
    v
}
