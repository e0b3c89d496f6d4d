//! C07: schema and idents in memory, on disk and as datoms agree; alterations are legal or refused.
use crate::db::*;
use crate::explore::*;
use crate::h::*;
use crate::model::*;
use crate::val::V;
use crate::world::World;
use std::collections::{BTreeMap, BTreeSet};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "breadth-first search over store states (canonical datoms) with every operation of an alphabet of schema, ident and data transactions; after each operation: verdict against the rules of legal alteration, schema in memory == schema of a fresh open == schema derived from the datoms, materialized tables and per-datom index flags == schema, and data transactions behave as the schema says (reference model)",
        bounds: "2 user attributes, 1 ident, 2 data entities; about 75 operations; all histories of <= 3 (quick) / 4 (thorough) operations from an empty and from a populated start state, merged when they reach the same datoms",
        assumptions: vec!["states with the same datoms and different logs are merged", "an attribute is not retracted and then defined again under the same entity id with another type"],
    }
}

/// What the datoms say about a schema.
#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Derived {
    pub idents: BTreeMap<String, i64>,
    pub attrs: BTreeMap<i64, DAttr>,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct DAttr {
    pub vt: String,
    pub many: bool,
    pub unique: Option<&'static str>,
    pub index: bool,
    pub fulltext: bool,
    pub component: bool,
    pub no_history: bool,
}

pub fn derive(datoms: &BTreeMap<Datom, i64>) -> Result<Derived, String> {
    let mut d = Derived::default();
    // db/ident is entity 1 and names itself.
    for (e, a, v) in datoms.keys() {
        if *a == 1 {
            if let V::Kw(k) = v {
                if let Some(o) = d.idents.insert(k.clone(), *e) {
                    return Err(format!("ident :{} names {} and {}", k, o, e));
                }
            }
        }
    }
    let names: BTreeMap<i64, String> = {
        let mut m = BTreeMap::new();
        for (k, e) in &d.idents {
            if let Some(o) = m.insert(*e, k.clone()) {
                return Err(format!("entity {} has idents {} and {}", e, o, k));
            }
        }
        m
    };
    let id = |s: &str| d.idents.get(s).cloned().unwrap_or(-1);
    let (vt, card, uq, ix, ft, co, nh) = (id("db/valueType"), id("db/cardinality"), id("db/unique"), id("db/index"), id("db/fulltext"), id("db/isComponent"), id("db/noHistory"));
    let get = |e: i64, a: i64| datoms.keys().find(|x| x.0 == e && x.1 == a).map(|x| x.2.clone());
    let name = |v: Option<V>| match v {
        Some(V::Ref(r)) => names.get(&r).cloned(),
        _ => None,
    };
    let mut attrs = BTreeMap::new();
    for (e, _, v) in datoms.keys().filter(|x| x.1 == vt) {
        let t = name(Some(v.clone())).ok_or("odd value type")?;
        attrs.insert(
            *e,
            DAttr {
                vt: t.trim_start_matches("db.type/").to_string(),
                many: name(get(*e, card)).as_deref() == Some("db.cardinality/many"),
                unique: match name(get(*e, uq)).as_deref() {
                    Some("db.unique/value") => Some("value"),
                    Some("db.unique/identity") => Some("identity"),
                    _ => None,
                },
                index: get(*e, ix) == Some(V::Bool(true)),
                fulltext: get(*e, ft) == Some(V::Bool(true)),
                component: get(*e, co) == Some(V::Bool(true)),
                no_history: get(*e, nh) == Some(V::Bool(true)),
            },
        );
    }
    d.attrs = attrs;
    Ok(d)
}

pub fn of_schema(s: &mentat::Schema) -> Result<Derived, String> {
    let mut d = Derived::default();
    for (k, e) in &s.ident_map {
        d.idents.insert(k.to_string()[1..].to_string(), *e);
    }
    let inv: BTreeMap<i64, String> = s.entid_map.iter().map(|(e, k)| (*e, k.to_string()[1..].to_string())).collect();
    let inv2: BTreeMap<i64, String> = d.idents.iter().map(|(k, e)| (*e, k.clone())).collect();
    if inv != inv2 {
        return Err(format!("entid_map and ident_map disagree: {:?} vs {:?}", inv.iter().filter(|x| !inv2.contains_key(x.0) || &inv2[x.0] != x.1).collect::<Vec<_>>(), inv2.iter().filter(|x| !inv.contains_key(x.0) || &inv[x.0] != x.1).collect::<Vec<_>>()));
    }
    use core_traits::{attribute::Unique, ValueType as T};
    for (e, a) in &s.attribute_map {
        d.attrs.insert(
            *e,
            DAttr {
                vt: match a.value_type {
                    T::Ref => "ref",
                    T::Boolean => "boolean",
                    T::Instant => "instant",
                    T::Long => "long",
                    T::Double => "double",
                    T::String => "string",
                    T::Keyword => "keyword",
                    T::Uuid => "uuid",
                }
                .into(),
                many: a.multival,
                unique: a.unique.map(|u| match u {
                    Unique::Value => "value",
                    Unique::Identity => "identity",
                }),
                index: a.index,
                fulltext: a.fulltext,
                component: a.component,
                no_history: a.no_history,
            },
        );
    }
    let comps: BTreeSet<i64> = s.component_attributes.iter().cloned().collect();
    let want: BTreeSet<i64> = d.attrs.iter().filter(|a| a.1.component).map(|a| *a.0).collect();
    if comps != want || comps.len() != s.component_attributes.len() {
        return Err(format!("component attributes {:?}, schema has {:?}", s.component_attributes, want));
    }
    Ok(d)
}

pub fn valid(a: &DAttr) -> bool {
    (a.unique.is_none() || a.index) && (!a.fulltext || (a.vt == "string" && a.index)) && (!a.component || a.vt == "ref")
}

/// Everything that must agree about the schema of a store; returns the derived schema.
pub fn coherent(db: &Db) -> Result<Derived, String> {
    let dump = db.dump();
    let want = derive(&dump.datoms)?;
    let cmp = |got: Result<Derived, String>, who: &str| -> Result<(), String> {
        let got = got.map_err(|e| format!("{}: {}", who, e))?;
        if got != want {
            let mut s = format!("{} differs from what the datoms say\n", who);
            for (k, e) in &want.idents {
                if got.idents.get(k) != Some(e) {
                    s.push_str(&format!("  datoms: :{} is {}; {}: {:?}\n", k, e, who, got.idents.get(k)));
                }
            }
            for (k, e) in &got.idents {
                if !want.idents.contains_key(k) {
                    s.push_str(&format!("  {}: :{} is {}; datoms: no such ident\n", who, k, e));
                }
            }
            for (e, a) in &want.attrs {
                if got.attrs.get(e) != Some(a) {
                    s.push_str(&format!("  datoms: {} is {:?}\n  {}: {:?}\n", e, a, who, got.attrs.get(e)));
                }
            }
            for e in got.attrs.keys().filter(|e| !want.attrs.contains_key(e)) {
                s.push_str(&format!("  {}: {} is an attribute; datoms: it is not\n", who, e));
            }
            return Err(s);
        }
        Ok(())
    };
    cmp(of_schema(&db.conn.current_schema()), "the schema in memory")?;
    let re = guard(|| db.try_fork()).and_then(|r| r).map_err(|e| format!("the store cannot be opened again: {}", e))?;
    cmp(of_schema(&re.conn.current_schema()), "the schema of a fresh open")?;
    for (e, a) in &want.attrs {
        if !valid(a) {
            return Err(format!("attribute {} is not valid: {:?}", e, a));
        }
    }
    // Materialized tables.
    let id = |s: &str| want.idents.get(s).cloned().unwrap_or(-1);
    let sch = [id("db/valueType"), id("db/cardinality"), id("db/unique"), id("db/index"), id("db/fulltext"), id("db/isComponent"), id("db/noHistory")];
    let idents: BTreeSet<(i64, i64, V)> = dump.datoms.keys().filter(|d| d.1 == id("db/ident")).cloned().collect();
    if idents != dump.idents {
        return Err(format!("the idents table differs from the :db/ident datoms: {:?}", idents.symmetric_difference(&dump.idents).collect::<Vec<_>>()));
    }
    // (A flag that is false, or cardinality one, means the same as nothing.)
    let one = V::Ref(id("db.cardinality/one"));
    let default = |d: &Datom| d.2 == V::Bool(false) || (d.1 == sch[1] && d.2 == one);
    let schema: BTreeSet<(i64, i64, V)> = dump.datoms.keys().filter(|d| sch.contains(&d.1) && want.attrs.contains_key(&d.0) && !default(d)).cloned().collect();
    let table: BTreeSet<(i64, i64, V)> = dump.schema.iter().filter(|d| !default(d)).cloned().collect();
    if schema != table {
        return Err(format!("the schema table differs from the schema datoms: {:?}", schema.symmetric_difference(&table).collect::<Vec<_>>()));
    }
    // Index treatment of every datom.
    for (d, f) in &dump.flags {
        if let Some(a) = want.attrs.get(&d.1) {
            let w = (a.index as i64, (a.vt == "ref") as i64, a.fulltext as i64, a.unique.is_some() as i64);
            if *f != w {
                return Err(format!("datom {:?} is stored with (avet, vaet, fulltext, unique) = {:?}, its attribute {:?} wants {:?}", d, f, a, w));
            }
        }
    }
    Ok(want)
}

/// The reference model for the attributes a store has now.
pub fn model_of(d: &Derived, datoms: &BTreeMap<Datom, i64>) -> (Model, BTreeMap<&'static str, i64>) {
    let mut attrs = BTreeMap::new();
    let mut ids = BTreeMap::new();
    let names: BTreeMap<i64, &String> = d.idents.iter().map(|(k, e)| (*e, k)).collect();
    for (e, a) in &d.attrs {
        let name: &'static str = match names.get(e) {
            Some(n) => Box::leak((*n).clone().into_boxed_str()),
            None => continue,
        };
        let vt = [Vt::Ref, Vt::Bool, Vt::Inst, Vt::Long, Vt::Dbl, Vt::Str, Vt::Kw, Vt::Uuid].iter().cloned().find(|v| v.ident() == a.vt);
        if let Some(vt) = vt {
            attrs.insert(*e, Attr { name, vt, many: a.many, uniq: match a.unique { None => Uniq::No, Some("value") => Uniq::Value, _ => Uniq::Identity }, fulltext: a.fulltext, component: a.component, index: a.index });
            ids.insert(name, *e);
        }
    }
    (Model { attrs, datoms: datoms.clone() }, ids)
}

struct Sx {
    db: Db,
    /// Fixed entities.
    d1: i64,
    d2: i64,
    e: i64,
}
impl St for Sx {
    fn fork(&self) -> Self {
        Sx { db: self.db.fork(), d1: self.d1, d2: self.d2, e: self.e }
    }
    fn limit(&self, few: bool) {
        self.db.limit(few)
    }
}

/// $1, $2: data entities, $e: an entity with an ident.
fn ops() -> Vec<(String, Option<bool>)> {
    let mut v: Vec<(String, Option<bool>)> = vec![];
    let inst = |n: &str, rest: &str| format!("[{{:db/ident :t/{} {}}}]", n, rest);
    let mut add = |s: String| v.push((s, None));
    // Definitions.
    for (n, rest) in [
        ("p", ":db/valueType :db.type/long :db/cardinality :db.cardinality/one"),
        ("p", ":db/valueType :db.type/string :db/cardinality :db.cardinality/many :db/index true"),
        ("p", ":db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/unique :db.unique/identity"),
        ("p", ":db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true"),
        ("p", ":db/valueType :db.type/ref :db/cardinality :db.cardinality/many :db/isComponent true"),
        ("q", ":db/valueType :db.type/string :db/cardinality :db.cardinality/one"),
        ("p", ":db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/noHistory true"),
        // Not valid.
        ("p", ":db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/value"),
        ("p", ":db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index false"),
        ("p", ":db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/index true :db/fulltext true"),
        ("p", ":db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/fulltext true"),
        ("p", ":db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/isComponent true"),
        ("p", ":db/cardinality :db.cardinality/one"),
        ("p", ":db/index true"),
        ("p", ":db/valueType :db.type/bytes :db/cardinality :db.cardinality/one"),
    ] {
        add(inst(n, rest));
    }
    // Alterations.
    for p in ["p", "q"] {
        for (a, x) in [
            ("cardinality", ":db.cardinality/one"),
            ("cardinality", ":db.cardinality/many"),
            ("index", "true"),
            ("index", "false"),
            ("unique", ":db.unique/value"),
            ("unique", ":db.unique/identity"),
            ("isComponent", "true"),
            ("isComponent", "false"),
        ] {
            add(format!("[[:db/add :t/{} :db/{} {}]]", p, a, x));
        }
        add(format!("[[:db/retract :t/{} :db/unique :db.unique/identity]]", p));
        add(format!("[[:db/add :t/{} :db/index true] [:db/add :t/{} :db/unique :db.unique/value]]", p, p));
    }
    for s in [
        "[[:db/retract :t/p :db/unique :db.unique/value]]",
        "[[:db/add :t/p :db/valueType :db.type/string]]",
        "[[:db/add :t/p :db/fulltext true]]",
        "[[:db/add :t/p :db/fulltext false]]",
        "[[:db/retract :t/p :db/index true]]",
        "[[:db/retract :t/p :db/cardinality :db.cardinality/one]]",
        "[[:db/retract :t/p :db/valueType :db.type/string]]",
        "[[:db/retract :t/p :db/isComponent true]]",
        "[[:db/add :t/p :db/unique :db.unique/identity] [:db/add :t/p :db/cardinality :db.cardinality/many] [:db/add :t/p :db/index true]]",
        "[[:db/retract :t/p :db/unique :db.unique/identity] [:db/add :t/p :db/index false]]",
        "[[:db/add :t/p :db/doc \"a doc\"]]",
        "[[:db/add :t/p :db/noHistory true]]",
        "[[:db/add :t/p :db/noHistory false]]",
        "[[:db/retract :t/p :db/noHistory true]]",
        // Idents.
        "[[:db/add :t/p :db/ident :t/p2]]",
        "[[:db/add :t/p2 :db/ident :t/p]]",
        "[[:db/add :t/p :db/ident :t/q] [:db/add :t/q :db/ident :t/p]]",
        "[[:db/retract :t/p :db/ident :t/p]]",
        "[[:db/retract :t/ent :db/ident :t/ent]]",
        "[[:db/add :t/ent :db/ident :t/ent2]]",
        "[[:db/retract :t/p :db/ident :t/p] [:db/add :t/ent :db/ident :t/p]]",
        "[[:db/retract :t/ent :db/ident :t/ent] [:db/add :t/q :db/ident :t/ent]]",
        "[[:db/retract :t/ent :db/ident :t/ent] [:db/add $1 :db/ident :t/ent]]",
        "[[:db/retract :t/q :db/ident :t/q] [:db/add $1 :db/ident :t/q]]",
        "[[:db/retract $1 :db/ident :t/ent] [:db/add $e :db/ident :t/ent]]",
        "[[:db/add $e :db/ident :t/ent3]]",
        "[[:db/add $1 :db/ident :t/p]]",
        "[[:db/add $1 :db/ident :t/x] [:db/add $2 :db/ident :t/x]]",
        "[[:db/add \"n\" :db/ident :t/ent]]",
        "[{:db/id :t/p :db/ident :t/p2 :db/cardinality :db.cardinality/many} [:db/add \"n\" :db/ident :t/new]]",
        // An attribute out of an existing entity.
        "[[:db/add $e :db/valueType :db.type/long] [:db/add $e :db/cardinality :db.cardinality/many]]",
        // A new attribute and a rename of another in one go.
        "[{:db/ident :t/q :db/valueType :db.type/ref :db/cardinality :db.cardinality/many} [:db/add :t/p :db/ident :t/p2]]",
        // Data.
        "[[:db/add $1 :t/p \"x\"]]",
        "[[:db/add $2 :t/p \"x\"]]",
        "[[:db/add $1 :t/p \"y\"]]",
        "[[:db/add $1 :t/p 5]]",
        "[[:db/add $1 :t/q \"x\"] [:db/add $2 :t/q \"x\"]]",
        "[[:db/retract $1 :t/p \"x\"]]",
        "[[:db/add $e :t/q \"z\"]]",
    ] {
        add(s.to_string());
    }
    v
}

/// Attribute retraction, as the whole set of defining datoms.
/// With `min`, only those of the given attributes, and even if it has data.
fn retract_attr(db: &Db, name: &str, min: Option<&[&str]>) -> Option<String> {
    let ds = db.datoms();
    let d = derive(&ds).ok()?;
    let e = *d.idents.get(name)?;
    if !d.attrs.contains_key(&e) || (min.is_none() && ds.keys().any(|x| x.1 == e)) {
        return None;
    }
    let names: BTreeMap<i64, &String> = d.idents.iter().map(|(k, e)| (*e, k)).collect();
    Some(format!("[{}]", ds.keys().filter(|x| x.0 == e && min.map_or(true, |m| m.contains(&names[&x.1].as_str()))).map(|x| format!("[:db/retract {} :{} {}]", e, names[&x.1], x.2.edn())).collect::<String>()))
}

/// What is retracted to retract an attribute, or half of one.
const RETRACTED: [(&str, Option<&[&str]>); 7] = [
    ("t/p", None),
    ("t/q", None),
    ("t/p", Some(&["db/ident", "db/valueType", "db/cardinality"])),
    ("t/q", Some(&["db/ident", "db/valueType", "db/cardinality"])),
    ("t/p", Some(&["db/ident", "db/valueType"])),
    ("t/p", Some(&["db/ident", "db/cardinality"])),
    ("t/p", Some(&["db/valueType", "db/cardinality"])),
];

fn op_edn(s: &Sx, ops: &[(String, Option<bool>)], op: usize) -> Option<String> {
    if op < ops.len() {
        Some(ops[op].0.replace("$1", &s.d1.to_string()).replace("$2", &s.d2.to_string()).replace("$e", &s.e.to_string()))
    } else {
        let (name, min) = RETRACTED[op - ops.len()];
        retract_attr(&s.db, name, min)
    }
}

/// Must the transaction that would lead from `before` to `after` (as flat datoms) be refused?
fn legal(b: &Derived, a: &Derived, ds: &BTreeMap<Datom, i64>) -> Result<(), &'static str> {
    // An attribute goes as a whole: with its ident, value type and cardinality.
    for e in b.attrs.keys().filter(|e| !a.attrs.contains_key(e)) {
        if ds.keys().any(|d| d.0 == *e && (d.1 == a.idents["db/ident"] || d.1 == a.idents["db/cardinality"])) {
            return Err("half an attribute is retracted");
        }
    }
    for (e, x) in &a.attrs {
        if !valid(x) {
            return Err("attribute not valid");
        }
        if let Some(y) = b.attrs.get(e) {
            if x.vt != y.vt {
                return Err("value type changes");
            }
            if x.fulltext != y.fulltext {
                return Err("fulltext changes");
            }
        }
        let vals: Vec<&Datom> = ds.keys().filter(|d| d.1 == *e).collect();
        if !x.many && vals.iter().any(|d| vals.iter().any(|f| f.0 == d.0 && f.2 != d.2)) {
            return Err("more than one value");
        }
        if x.unique.is_some() && vals.iter().any(|d| vals.iter().any(|f| f.0 != d.0 && f.2 == d.2)) {
            return Err("not unique");
        }
    }
    Ok(())
}

fn step(ctx: &Ctx, s: &mut Sx, ops: &[(String, Option<bool>)], op: usize) -> Result<Option<Vec<Datom>>, String> {
    let edn = match op_edn(s, ops, op) {
        Some(e) => e,
        None => return Ok(None),
    };
    let before = s.db.datoms();
    let b = derive(&before)?;
    let r = s.db.transact(&edn);
    let after = s.db.datoms();
    match &r {
        Err(e) if e.starts_with("PANIC") => return Err(e.clone()),
        Err(e) => {
            if before != after {
                return Err(format!("refused ({}) but the datoms changed", e));
            }
            coherent(&s.db)?;
            ctx.outcome(&(op, e));
            ctx.count("refused", 1);
            // What the transaction would mean, from its text: decided for the forms of the alphabet.
            if let Some(true) = must_accept(&b, &before, &edn) {
                return Err(format!("refused ({}) a legal change: {}", e, edn));
            }
            Ok(None)
        }
        Ok(rep) => {
            let a = coherent(&s.db)?;
            legal(&b, &a, &after).map_err(|m| format!("accepted an illegal change ({}): {}", m, edn))?;
            // It took effect: everything it asserts holds.
            effect(&a, &after, &edn)?;
            ctx.count("accepted", 1);
            let key: Vec<Datom> = after.keys().filter(|d| d.0 < 0x10000000).cloned().collect();
            ctx.outcome(&key);
            let _ = rep;
            probes(s, &a, &after)?;
            Ok(Some(key))
        }
    }
}

/// The flat terms [:db/add|retract e a v] of a transaction of this alphabet, with entities resolved
/// against the idents before it; None when it has forms this reader does not know.
fn flat(b: &Derived, edn: &str) -> Option<Vec<(bool, Option<i64>, String, String)>> {
    let inner = edn.trim().strip_prefix('[')?.strip_suffix(']')?;
    let mut out = vec![];
    let mut rest = inner.trim();
    while !rest.is_empty() {
        let (open, close) = if rest.starts_with('[') { ('[', ']') } else { ('{', '}') };
        if !rest.starts_with(open) {
            return None;
        }
        let end = rest.find(close)?;
        let body: Vec<&str> = rest[1..end].split_whitespace().collect();
        let ent = |s: &str| -> Option<Option<i64>> {
            if let Ok(i) = s.parse::<i64>() {
                Some(Some(i))
            } else if s.starts_with(':') {
                Some(Some(*b.idents.get(&s[1..])?))
            } else {
                Some(None)
            }
        };
        if open == '[' {
            if body.len() < 4 {
                return None;
            }
            out.push((body[0] == ":db/add", ent(body[1])?, body[2][1..].to_string(), body[3..].join(" ")));
        } else {
            let mut e: Option<i64> = None;
            let mut kv = vec![];
            for p in body.chunks(2) {
                if p[0] == ":db/id" {
                    e = ent(p[1])?;
                } else {
                    kv.push((p[0][1..].to_string(), p[1].to_string()));
                }
            }
            if e.is_none() {
                // Upsert by ident.
                if let Some((_, i)) = kv.iter().find(|k| k.0 == "db/ident") {
                    e = b.idents.get(&i[1..]).cloned();
                }
            }
            for (a, v) in kv {
                out.push((true, e, a, v));
            }
        }
        rest = rest[end + 1..].trim();
    }
    Some(out)
}

fn val(b: &Derived, a: &str, v: &str) -> Option<V> {
    let at = b.attrs.get(b.idents.get(a)?)?;
    Some(match at.vt.as_str() {
        "ref" => V::Ref(if v.starts_with(':') { *b.idents.get(&v[1..])? } else { v.parse().ok()? }),
        "keyword" if v.starts_with(':') => V::kw(&v[1..]),
        "boolean" => V::Bool(v.parse().ok()?),
        "long" => V::Long(v.parse().ok()?),
        "string" if v.starts_with('"') => V::s(v.trim_matches('"')),
        _ => return None,
    })
}

/// Some(true): the alphabet's transaction is legal and must be accepted.
fn must_accept(b: &Derived, ds: &BTreeMap<Datom, i64>, edn: &str) -> Option<bool> {
    let terms = flat(b, edn)?;
    // Compute the datoms it asks for.
    let mut now: BTreeMap<Datom, i64> = ds.clone();
    let mut fresh = 0x20000000;
    let (mut adds, mut rets): (Vec<Datom>, Vec<Datom>) = (vec![], vec![]);
    let mut new_e: Option<i64> = None;
    for (add, e, a, v) in &terms {
        let e = match e {
            Some(e) => *e,
            None => *new_e.get_or_insert_with(|| {
                fresh += 1;
                fresh
            }),
        };
        let av = *b.idents.get(a)?;
        let d = (e, av, val(b, a, v)?);
        if *add {
            adds.push(d);
        } else {
            // Retractions of schema attributes are mostly not supported: do not insist.
            if !["db/ident", "db/unique"].contains(&a.as_str()) && b.attrs.contains_key(&e) {
                return None;
            }
            if a == "db/unique" && !ds.contains_key(&d) {
                return None;
            }
            now.remove(&d);
            rets.push(d);
        }
    }
    if adds.iter().any(|d| rets.contains(d)) {
        return None;
    }
    for d in &adds {
        if adds.iter().any(|f| f.0 == d.0 && f.1 == d.1 && f.2 != d.2 && !b.attrs[&d.1].many) {
            return None;
        }
        if !b.attrs[&d.1].many {
            now.retain(|f, _| !(f.0 == d.0 && f.1 == d.1));
        }
        now.insert(d.clone(), 0);
    }
    let a = derive(&now).ok()?;
    // :db/fulltext and :db/valueType cannot be mentioned again, not even with the value they have.
    for d in &adds {
        if ["db/fulltext", "db/valueType"].iter().any(|s| b.idents.get(*s) == Some(&d.1)) && b.attrs.contains_key(&d.0) {
            return None;
        }
    }
    // Schema properties on something that is not an attribute.
    let sch = ["db/cardinality", "db/unique", "db/index", "db/fulltext", "db/isComponent", "db/noHistory"];
    for d in &adds {
        if sch.iter().any(|s| b.idents.get(*s) == Some(&d.1)) && !a.attrs.contains_key(&d.0) {
            return None;
        }
    }
    for x in a.attrs.values() {
        if ![Vt::Ref, Vt::Bool, Vt::Inst, Vt::Long, Vt::Dbl, Vt::Str, Vt::Kw, Vt::Uuid].iter().any(|v| v.ident() == x.vt) {
            return None;
        }
    }
    // Uniqueness of everything (also :db/ident).
    for d in now.keys() {
        if a.attrs.get(&d.1).map(|x| x.unique.is_some()).unwrap_or(false) && now.keys().any(|f| f.1 == d.1 && f.2 == d.2 && f.0 != d.0) {
            return None;
        }
    }
    Some(legal(b, &a, &now).is_ok())
}

/// Everything the accepted transaction asserts holds afterwards, everything it retracts does not.
fn effect(a: &Derived, after: &BTreeMap<Datom, i64>, edn: &str) -> Result<(), String> {
    // Entities by entid only: idents may have moved.
    for m in edn.split('[').filter(|m| m.starts_with(":db/add")) {
        let body: Vec<&str> = m.trim_end_matches(|c| c == ']' || c == ' ').split_whitespace().collect();
        if let Ok(e) = body[1].parse::<i64>() {
            if let (Some(at), Some(v)) = (a.idents.get(&body[2][1..]), val(a, &body[2][1..], &body[3..].join(" "))) {
                if !after.contains_key(&(e, *at, v.clone())) && !edn.contains(&format!(":db/ident {}", body[2])) {
                    return Err(format!("accepted, but {} {} {:?} does not hold: {}", e, body[2], v, edn));
                }
            }
        }
    }
    Ok(())
}

/// Data behaves as the schema says.
fn probes(s: &Sx, d: &Derived, datoms: &BTreeMap<Datom, i64>) -> Result<(), String> {
    let (m, ids) = model_of(d, datoms);
    let mut w = World { db: s.db.fork(), m, ids: ids.clone(), tx_instant: d.idents["db/txInstant"], log: s.db.log() };
    for n in ["t/p", "t/p2", "t/q", "t/ent", "t/x"] {
        if let Some(a) = ids.get(n) {
            let (v1, v2) = match w.m.attr(*a).vt {
                Vt::Str => (V::s("x"), V::s("w")),
                Vt::Long => (V::Long(5), V::Long(6)),
                Vt::Ref => (V::Ref(s.d1), V::Ref(s.d2)),
                _ => continue,
            };
            let id = E::Id;
            let txs: Vec<Vec<T>> = vec![
                vec![t(true, id(s.d1), *a, X::Val(v1.clone())), t(true, id(s.d2), *a, X::Val(v2.clone()))],
                vec![t(true, id(s.d1), *a, X::Val(v2.clone()))],
                vec![t(true, E::Tmp("n".into()), *a, X::Val(v2.clone()))],
                vec![t(false, id(s.d2), *a, X::Val(v2.clone())), t(true, id(s.d1), *a, X::Val(v2.clone()))],
            ];
            for ts in txs {
                let edn = w.m.tx_edn(&ts);
                w.step(&ts, &edn).map_err(|e| format!("after this history, data does not follow the schema: {}", e))?;
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let ops = ops();
    let n = ops.len() + RETRACTED.len();
    let mk = |pre: &[&str]| -> Sx {
        let mut db = Db::new();
        let r = db.must("[[:db/add \"e\" :db/ident :t/ent] [:db/add \"d1\" :db/doc \"d1\"] [:db/add \"d2\" :db/doc \"d2\"]]");
        let s = Sx { d1: r.tempids["d1"], d2: r.tempids["d2"], e: r.tempids["e"], db };
        let mut s = s;
        for p in pre {
            s.db.must(&p.replace("$1", &s.d1.to_string()).replace("$2", &s.d2.to_string()));
        }
        s
    };
    let name = |op: usize| if op < ops.len() { ops[op].0.clone() } else { format!("retract the attribute {:?}", RETRACTED[op - ops.len()]) };
    let starts: Vec<(&str, Sx, usize)> = vec![
        ("empty", mk(&[]), if ctx.thorough { 4 } else { 3 }),
        (
            "populated",
            mk(&[
                "[{:db/ident :t/p :db/valueType :db.type/string :db/cardinality :db.cardinality/many :db/index true :db/unique :db.unique/identity} {:db/ident :t/q :db/valueType :db.type/string :db/cardinality :db.cardinality/one}]",
                "[[:db/add $1 :t/p \"x\"] [:db/add $1 :t/p \"y\"] [:db/add $2 :t/q \"x\"]]",
            ]),
            if ctx.thorough { 4 } else { 2 },
        ),
        (
            "fulltext",
            mk(&[
                "[{:db/ident :t/p :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true} {:db/ident :t/q :db/valueType :db.type/ref :db/cardinality :db.cardinality/many :db/isComponent true}]",
                "[[:db/add $1 :t/p \"x\"] [:db/add $2 :t/p \"x\"] [:db/add $1 :t/q $2]]",
            ]),
            if ctx.thorough { 3 } else { 2 },
        ),
    ];
    for (tag, s0, depth) in &starts {
        if let Err(e) = coherent(&s0.db) {
            ctx.violation(format!("C07/{}/start", tag), tag.to_string(), e);
            continue;
        }
        let key0: Vec<Datom> = s0.db.datoms().into_keys().filter(|d| d.0 < 0x10000000).collect();
        explore(
            ctx,
            &Search { name: tag, nops: n, depth: *depth, op_name: &name },
            s0,
            key0,
            |s, op| {
                if let Some(e) = op_edn(s, &ops, op) {
                    let _ = s.db.transact(&e);
                }
            },
            |s, op| step(ctx, s, &ops, op),
        );
    }
}
