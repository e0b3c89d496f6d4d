//! C20: ensuring a vocabulary installs or upgrades it once and reports truthfully.
use crate::c::c07::{coherent, derive, of_schema, valid, DAttr, Derived};
use crate::db::*;
use crate::explore::*;
use crate::h::*;
use crate::val::{kw, V};
use core_traits::attribute::Unique;
use mentat::vocabulary::{Definition, HasVocabularies, SimpleVocabularySource, VersionedStore, Vocabularies, Vocabulary, VocabularyOutcome};
use mentat::{Queryable, ValueType};
use mentat_transaction::InProgress;
use std::collections::{BTreeMap, BTreeSet};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "breadth-first search over store states with every operation of an alphabet of ensure operations (definitions: versions x attribute sets x attribute properties, with and without pre/post functions, several vocabularies at once) and of schema and data transactions; after each: outcome, stored vocabularies (in the transaction, after commit, after reopening), schema, data and log compared with a model of what the definition says; each ensure is repeated; every pair of ensure operations is also run in one transaction and compared with two",
        bounds: "2 vocabularies + core, 4 attributes, two of them with 12 + 3 property sets, versions 0 1 2 3 max-1 max; about 90 operations; all histories of <= 2 operations over the whole alphabet, of <= 3 over a reduced one (quick); 3 / 4 (thorough)",
        assumptions: vec!["attributes recorded for a vocabulary earlier remain part of it", "the two definitions given to one call do not contradict each other"],
    }
}

// ---------------------------------------------------------------- definitions

fn attr(vt: &str, many: bool, index: bool, unique: Option<&'static str>) -> DAttr {
    DAttr { vt: vt.into(), many, unique, index, fulltext: false, component: false, no_history: false }
}

fn profiles(a: &str) -> Vec<DAttr> {
    match a {
        "v/a" => vec![
            attr("string", false, false, None),
            attr("string", false, true, None),
            attr("string", true, true, None),
            attr("string", false, true, Some("identity")),
            attr("string", false, true, Some("value")),
            attr("string", true, true, Some("value")),
            DAttr { fulltext: true, ..attr("string", true, true, None) },
            DAttr { fulltext: true, ..attr("string", false, true, Some("value")) },
            DAttr { no_history: true, ..attr("string", false, false, None) },
            attr("long", false, false, None),
            // Not valid.
            attr("string", false, false, Some("value")),
            DAttr { component: true, ..attr("string", false, false, None) },
        ],
        _ => vec![attr("ref", false, false, None), DAttr { component: true, ..attr("ref", true, false, None) }, DAttr { no_history: true, ..attr("ref", true, true, None) }],
    }
}

fn real_attr(a: &DAttr) -> mentat::Attribute {
    mentat::Attribute {
        value_type: match a.vt.as_str() {
            "string" => ValueType::String,
            "long" => ValueType::Long,
            _ => ValueType::Ref,
        },
        multival: a.many,
        unique: a.unique.map(|u| if u == "value" { Unique::Value } else { Unique::Identity }),
        index: a.index,
        fulltext: a.fulltext,
        component: a.component,
        no_history: a.no_history,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Hook {
    None,
    /// pre removes all values of :v/a, post records the old version.
    Clean,
    PreFails,
    PostFails,
}

#[derive(Clone, Debug)]
struct Def {
    name: &'static str,
    version: u32,
    attrs: Vec<(&'static str, DAttr)>,
    hook: Hook,
}

fn clean(ip: &mut InProgress<'_, '_>) -> Result<(), mentat::MentatError> {
    use mentat::query::QueryResults;
    if ip.schema.get_raw_entid_of("v/a").is_none() {
        return Ok(());
    }
    let rows = match ip.q_once("[:find ?e ?v :where [?e :v/a ?v]]", None)?.results {
        QueryResults::Rel(r) => r.rows().map(|r| r.iter().map(crate::c::c10::val).collect::<Vec<V>>()).collect::<Vec<_>>(),
        _ => vec![],
    };
    if !rows.is_empty() {
        let tx = rows.iter().map(|r| if let V::Ref(e) = r[0] { format!("[:db/retract {} :v/a {}]", e, r[1].edn()) } else { panic!("{:?}", r) }).collect::<String>();
        ip.transact(format!("[{}]", tx).as_str())?;
    }
    Ok(())
}
trait RawEntid {
    fn get_raw_entid_of(&self, s: &str) -> Option<i64>;
}
impl RawEntid for mentat::Schema {
    fn get_raw_entid_of(&self, s: &str) -> Option<i64> {
        use mentat::HasSchema;
        self.get_entid(&kw(s)).filter(|e| self.attribute_for_entid(*e).is_some()).map(|e| e.into())
    }
}
fn pre_clean(ip: &mut InProgress<'_, '_>, _: &Vocabulary) -> Result<(), mentat::MentatError> {
    clean(ip)
}
fn post_mark(ip: &mut InProgress<'_, '_>, from: &Vocabulary) -> Result<(), mentat::MentatError> {
    ip.transact(format!("[[:db/add \"m\" :m/from {}]]", from.version).as_str())?;
    Ok(())
}
fn fails(_: &mut InProgress<'_, '_>, _: &Vocabulary) -> Result<(), mentat::MentatError> {
    Err(mentat::MentatError::InvalidVocabularyVersion)
}
fn source_pre(ip: &mut InProgress<'_, '_>) -> Result<(), mentat::MentatError> {
    clean(ip)
}
fn source_post(ip: &mut InProgress<'_, '_>) -> Result<(), mentat::MentatError> {
    ip.transact("[[:db/add \"m\" :m/from 77]]")?;
    Ok(())
}
fn source_fails(_: &mut InProgress<'_, '_>) -> Result<(), mentat::MentatError> {
    Err(mentat::MentatError::InvalidVocabularyVersion)
}

fn real_def(d: &Def) -> Definition {
    let mut r = Definition::new(kw(d.name), d.version, d.attrs.iter().map(|(n, a)| (kw(n), real_attr(a))).collect::<Vec<_>>());
    match d.hook {
        Hook::None => {}
        Hook::Clean => {
            r.pre = pre_clean;
            r.post = post_mark;
        }
        Hook::PreFails => r.pre = fails,
        Hook::PostFails => r.post = fails,
    }
    r
}

#[derive(Clone, Debug)]
enum Op {
    Ensure(Def),
    Many(Vec<Def>, Hook),
    Tx(String),
}
impl Op {
    fn text(&self) -> String {
        fn def(d: &Def) -> String {
            let a = d.attrs.iter().map(|(n, a)| format!(":{} {}{}{}{}{}{}{}", n, a.vt, if a.many { " many" } else { "" }, if a.index { " index" } else { "" }, a.unique.map(|u| format!(" unique-{}", u)).unwrap_or_default(), if a.fulltext { " fulltext" } else { "" }, if a.component { " component" } else { "" }, if a.no_history { " noHistory" } else { "" })).collect::<Vec<_>>().join(", ");
            format!(":{} v{} {{{}}}{}", d.name, d.version, a, if d.hook == Hook::None { String::new() } else { format!(" {:?}", d.hook) })
        }
        match self {
            Op::Ensure(d) => format!("ensure {}", def(d)),
            Op::Many(ds, h) => format!("ensure all of [{}] {:?}", ds.iter().map(def).collect::<Vec<_>>().join("; "), h),
            Op::Tx(t) => format!("transact {}", t),
        }
    }
}

fn ops(full: bool) -> Vec<Op> {
    let (pa, pb) = (profiles("v/a"), profiles("v/b"));
    let mut v = vec![];
    let d = |name: &'static str, version: u32, attrs: Vec<(&'static str, DAttr)>| Def { name, version, attrs, hook: Hook::None };
    let a = |i: usize| ("v/a", pa[i].clone());
    let b = |i: usize| ("v/b", pb[i].clone());
    for ver in [1, 2] {
        v.push(Op::Ensure(d("voc/p", ver, vec![])));
        for i in 0..pa.len() {
            if full || ver == 1 && [0, 2, 3, 6, 8].contains(&i) || ver == 2 && [0, 1, 2, 3, 5, 6, 8, 9].contains(&i) {
                v.push(Op::Ensure(d("voc/p", ver, vec![a(i)])));
            }
        }
        for (i, j) in [(0, 0), (3, 1), (6, 2)] {
            if full || i != 3 {
                v.push(Op::Ensure(d("voc/p", ver, vec![a(i), b(j)])));
            }
        }
        v.push(Op::Ensure(d("voc/p", ver, vec![b(1)])));
    }
    v.push(Op::Ensure(d("voc/p", 3, vec![b(0), a(2)])));
    v.push(Op::Ensure(d("voc/p", 1, vec![a(0), b(0), ("v/c", attr("ref", true, true, None)), ("v/d", attr("long", false, true, None))])));
    for ver in [0, u32::max_value() - 1, u32::max_value()] {
        if full || ver == 0 {
            v.push(Op::Ensure(d("voc/p", ver, vec![a(0)])));
        }
    }
    for i in [0, 2, 3, 6, 8] {
        if full || i == 3 || i == 0 {
            v.push(Op::Ensure(d("voc/q", 1, vec![a(i)])));
            v.push(Op::Ensure(d("voc/q", 2, vec![a(i), b(2)])));
        }
    }
    v.push(Op::Ensure(d("v/a", 1, vec![b(0)])));
    if full {
        // Core.
        let doc = attr("string", false, false, None);
        v.push(Op::Ensure(d("db.schema/core", 1, vec![("db/doc", doc.clone())])));
        v.push(Op::Ensure(d("db.schema/core", 1, vec![("db/doc", DAttr { many: true, ..doc.clone() })])));
        v.push(Op::Ensure(d("db.schema/core", 1, vec![("db/doc", DAttr { no_history: true, ..doc.clone() })])));
        v.push(Op::Ensure(d("voc/q", 1, vec![("db/doc", doc.clone()), a(0)])));
    }
    // Hooks.
    for (i, h) in [(3, Hook::Clean), (0, Hook::Clean), (1, Hook::PreFails), (1, Hook::PostFails), (9, Hook::Clean)] {
        if full || i == 3 || h == Hook::PostFails {
            v.push(Op::Ensure(Def { hook: h, ..d("voc/p", 2, vec![a(i)]) }));
            v.push(Op::Ensure(Def { hook: h, ..d("voc/p", 1, vec![a(i)]) }));
        }
    }
    // Several at once.
    let p = |ver, attrs| d("voc/p", ver, attrs);
    let q = |ver, attrs| d("voc/q", ver, attrs);
    let mut many = vec![
        (vec![p(1, vec![a(0)]), q(1, vec![b(0)])], Hook::None),
        (vec![p(2, vec![a(3)]), q(1, vec![a(3), b(0)])], Hook::Clean),
        (vec![p(1, vec![a(0)]), q(2, vec![a(0)])], Hook::None),
        (vec![p(1, vec![a(0)]), q(1, vec![a(0)])], Hook::PostFails),
        (vec![p(1, vec![b(0), a(0)])], Hook::Clean),
    ];
    if full {
        many.extend(vec![
            (vec![], Hook::Clean),
            (vec![q(2, vec![b(1)]), p(2, vec![a(1), b(1)])], Hook::None),
            (vec![p(3, vec![a(6)]), q(1, vec![b(2)])], Hook::None),
            (vec![p(1, vec![a(2)]), q(1, vec![a(2)])], Hook::PreFails),
            (vec![p(1, vec![a(9)]), q(1, vec![b(0)])], Hook::None),
            (vec![p(2, vec![a(2), b(0)]), q(2, vec![a(2), b(0)])], Hook::Clean),
        ]);
    }
    for (ds, h) in many {
        v.push(Op::Many(ds, h));
    }
    let mut tx = vec![
        "[[:db/add $1 :v/a \"x\"]]",
        "[[:db/add $2 :v/a \"x\"] [:db/add $1 :v/a \"x\"]]",
        "[[:db/add $1 :v/a \"x\"] [:db/add $1 :v/a \"y\"]]",
        "[{:db/ident :v/a :db/valueType :db.type/string :db/cardinality :db.cardinality/one}]",
        "[{:db/ident :v/a :db/valueType :db.type/string :db/cardinality :db.cardinality/many :db/index true :db/unique :db.unique/identity}]",
        "[[:db/add $1 :db/ident :voc/p]]",
    ];
    if full {
        tx.extend(vec![
            "[[:db/add $1 :v/b $2]]",
            "[[:db/add $1 :v/a 5]]",
            "[{:db/ident :v/a :db/valueType :db.type/string :db/cardinality :db.cardinality/many :db/index true :db/fulltext true}]",
            "[[:db/add :v/a :db/ident :v/z]]",
            "[[:db/add $1 :db/ident :v/b]]",
            "[[:db/add :voc/p :db/ident :voc/q]]",
            "[[:db/retract :voc/p :db.schema/attribute :v/a]]",
            "[[:db/add :voc/p :db.schema/version 5]]",
            "[[:db/add :voc/p :db.schema/version -1]]",
            "[[:db/retract :voc/p :db.schema/version 1]]",
            "[[:db/add :v/a :db/cardinality :db.cardinality/many]]",
            "[[:db/add :v/a :db/index true] [:db/add :v/a :db/unique :db.unique/identity]]",
        ]);
    }
    for t in tx {
        v.push(Op::Tx(t.to_string()));
    }
    v
}

// ---------------------------------------------------------------- the model

#[derive(Clone, PartialEq, Eq, Debug)]
struct Voc {
    entity: i64,
    version: i64,
    attrs: BTreeSet<i64>,
}

/// What a store says, read from its datoms.
#[derive(Clone, PartialEq, Eq, Debug)]
struct State {
    d: Derived,
    vocs: BTreeMap<String, Voc>,
    /// Datoms of user attributes, without transactions.
    data: BTreeSet<Datom>,
}

fn state(datoms: &BTreeMap<Datom, i64>) -> Result<State, String> {
    let d = derive(datoms)?;
    let (av, aa) = (d.idents["db.schema/version"], d.idents["db.schema/attribute"]);
    let mut vocs = BTreeMap::new();
    for (n, e) in &d.idents {
        let vs: Vec<i64> = datoms.keys().filter(|x| x.0 == *e && x.1 == av).map(|x| if let V::Long(l) = x.2 { l } else { -9 }).collect();
        if vs.len() > 1 {
            return Err(format!("vocabulary {} has versions {:?}", n, vs));
        }
        if let Some(v) = vs.first() {
            vocs.insert(n.clone(), Voc { entity: *e, version: *v, attrs: datoms.keys().filter(|x| x.0 == *e && x.1 == aa).map(|x| if let V::Ref(r) = x.2 { r } else { -9 }).collect() });
        }
    }
    let data = datoms.keys().filter(|x| x.1 >= 0x10000 && x.0 >= 0x10000).cloned().collect();
    Ok(State { d, vocs, data })
}

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Check {
    Absent,
    Older,
    Missing,
    Present,
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Verdict {
    /// Refused by looking: nothing is changed, even if the transaction goes on.
    Refuse(&'static str),
    /// Refused by what it would lead to.
    Impossible(&'static str),
    Done(BTreeMap<&'static str, Check>),
}

fn check(s: &State, d: &Def) -> Result<Check, &'static str> {
    if d.version == 0 || d.version == u32::max_value() {
        return Err("not a version");
    }
    let voc = match s.vocs.get(d.name) {
        None => return Ok(Check::Absent),
        Some(v) => v,
    };
    if voc.version <= 0 || voc.version >= u32::max_value() as i64 {
        return Err("the stored version is not a version");
    }
    if voc.version > d.version as i64 {
        return Err("too new");
    }
    if voc.version < d.version as i64 {
        return Ok(Check::Older);
    }
    let mut missing = false;
    for (n, a) in &d.attrs {
        match s.d.idents.get(*n).filter(|e| voc.attrs.contains(e)).and_then(|e| s.d.attrs.get(e)) {
            Some(x) if x == a => {}
            Some(_) => return Err("conflict"),
            None => missing = true,
        }
    }
    Ok(if missing { Check::Missing } else { Check::Present })
}

/// Entities that do not exist yet are negative.
fn write(s: &mut State, d: &Def, c: Check, fresh: &mut i64) -> Result<(), &'static str> {
    let mut ent = |s: &mut State, n: &str| {
        if let Some(e) = s.d.idents.get(n) {
            return *e;
        }
        *fresh -= 1;
        s.d.idents.insert(n.to_string(), *fresh);
        *fresh
    };
    let v = ent(s, d.name);
    let known = s.vocs.get(d.name).cloned();
    let mut voc = known.clone().unwrap_or(Voc { entity: v, version: 0, attrs: BTreeSet::new() });
    voc.version = d.version as i64;
    for (n, a) in &d.attrs {
        let e = ent(s, n);
        // Completing a vocabulary leaves the attributes it has alone (they are as stated).
        if c == Check::Missing && voc.attrs.contains(&e) && s.d.attrs.get(&e) == Some(a) {
            continue;
        }
        if s.vocs.iter().any(|(n, v)| n != d.name && v.attrs.contains(&e)) {
            return Err("the attribute belongs to another vocabulary");
        }
        if !valid(a) {
            return Err("not valid");
        }
        if let Some(x) = s.d.attrs.get(&e) {
            if x.vt != a.vt {
                return Err("value type changes");
            }
            if x.fulltext != a.fulltext {
                return Err("fulltext changes");
            }
        }
        voc.attrs.insert(e);
        s.d.attrs.insert(e, a.clone());
        let vals: Vec<&Datom> = s.data.iter().filter(|x| x.1 == e).collect();
        if !a.many && vals.iter().any(|x| vals.iter().any(|y| x.0 == y.0 && x.2 != y.2)) {
            return Err("more than one value");
        }
        if a.unique.is_some() && vals.iter().any(|x| vals.iter().any(|y| x.0 != y.0 && x.2 == y.2)) {
            return Err("not unique");
        }
    }
    s.vocs.insert(d.name.to_string(), voc);
    Ok(())
}

fn model_clean(s: &mut State) {
    if let Some(a) = s.d.idents.get("v/a").filter(|a| s.d.attrs.contains_key(a)).cloned() {
        s.data.retain(|x| x.1 != a);
    }
}

/// The definitions are checked first, then written: installed, upgraded, completed.
fn predict(s: &State, defs: &[Def], hook: Hook, many: bool) -> (Verdict, State, Vec<i64>) {
    let mut after = s.clone();
    let mut marks = vec![];
    let mut checks = BTreeMap::new();
    for d in defs {
        match check(s, d) {
            Err(m) => return (Verdict::Refuse(m), s.clone(), marks),
            Ok(c) => {
                checks.insert(d.name, c);
            }
        }
    }
    let work = checks.values().any(|c| *c != Check::Present);
    let mut fresh = 0;
    if work && many {
        match hook {
            Hook::Clean => {
                model_clean(&mut after);
            }
            Hook::PreFails => return (Verdict::Impossible("pre fails"), s.clone(), marks),
            _ => {}
        }
    }
    for c in [Check::Absent, Check::Older, Check::Missing] {
        for d in defs.iter().filter(|d| checks[d.name] == c) {
            let from = after.vocs.get(d.name).map(|v| v.version).unwrap_or(0);
            if c == Check::Older {
                match d.hook {
                    Hook::Clean => model_clean(&mut after),
                    Hook::PreFails => return (Verdict::Impossible("pre fails"), s.clone(), marks),
                    _ => {}
                }
            }
            if let Err(m) = write(&mut after, d, c, &mut fresh) {
                return (Verdict::Impossible(m), s.clone(), marks);
            }
            if c == Check::Older {
                match d.hook {
                    Hook::Clean => marks.push(from),
                    Hook::PostFails => return (Verdict::Impossible("post fails"), s.clone(), marks),
                    _ => {}
                }
            }
        }
    }
    if work && many {
        match hook {
            Hook::Clean => marks.push(77),
            Hook::PostFails => return (Verdict::Impossible("post fails"), s.clone(), marks),
            _ => {}
        }
    }
    (Verdict::Done(checks), after, marks)
}

/// Name the entities the model made up as the store did; None when they do not correspond.
fn rename(m: &State, real: &State) -> Option<State> {
    let mut map: BTreeMap<i64, i64> = BTreeMap::new();
    for (n, e) in &m.d.idents {
        if *e < 0 {
            map.insert(*e, *real.d.idents.get(n)?);
        }
    }
    let f = |e: &i64| *map.get(e).unwrap_or(e);
    Some(State {
        d: Derived { idents: m.d.idents.iter().map(|(n, e)| (n.clone(), f(e))).collect(), attrs: m.d.attrs.iter().map(|(e, a)| (f(e), a.clone())).collect() },
        vocs: m.vocs.iter().map(|(n, v)| (n.clone(), Voc { entity: f(&v.entity), version: v.version, attrs: v.attrs.iter().map(f).collect() })).collect(),
        data: m.data.clone(),
    })
}

// ---------------------------------------------------------------- the real thing

fn outcome_name(o: &VocabularyOutcome) -> &'static str {
    match o {
        VocabularyOutcome::Installed => "installed",
        VocabularyOutcome::InstalledMissingAttributes => "completed",
        VocabularyOutcome::Existed => "existed",
        VocabularyOutcome::Upgraded => "upgraded",
    }
}
fn check_name(c: Check) -> &'static str {
    match c {
        Check::Absent => "installed",
        Check::Older => "upgraded",
        Check::Missing => "completed",
        Check::Present => "existed",
    }
}

fn ensure(ip: &mut InProgress<'_, '_>, op: &Op) -> Result<BTreeMap<String, &'static str>, String> {
    match op {
        Op::Ensure(d) => ip.ensure_vocabulary(&real_def(d)).map(|o| std::iter::once((d.name.to_string(), outcome_name(&o))).collect()).map_err(|e| e.to_string()),
        Op::Many(ds, h) => {
            let defs: Vec<Definition> = ds.iter().map(real_def).collect();
            let mut src = match h {
                Hook::None => SimpleVocabularySource::with_definitions(defs),
                Hook::Clean => SimpleVocabularySource::new(defs, Some(source_pre), Some(source_post)),
                Hook::PreFails => SimpleVocabularySource::new(defs, Some(source_fails), None),
                Hook::PostFails => SimpleVocabularySource::new(defs, None, Some(source_fails)),
            };
            ip.ensure_vocabularies(&mut src).map(|m| m.into_iter().map(|(k, o)| (k.to_string()[1..].to_string(), outcome_name(&o))).collect()).map_err(|e| e.to_string())
        }
        Op::Tx(t) => ip.transact(t.as_str()).map(|_| BTreeMap::new()).map_err(|e| e.to_string()),
    }
}

fn same_vocs(got: &Vocabularies, want: &State, who: &str) -> Result<(), String> {
    let d: BTreeMap<i64, DAttr> = want.d.attrs.clone();
    let want: BTreeMap<String, (i64, i64, BTreeMap<i64, DAttr>)> = want.vocs.iter().filter(|(_, v)| v.version > 0 && v.version < u32::max_value() as i64).map(|(n, v)| (n.clone(), (v.entity, v.version, v.attrs.iter().filter_map(|a| d.get(a).map(|x| (*a, x.clone()))).collect()))).collect();
    let mut real = BTreeMap::new();
    for (k, v) in got.iter() {
        real.insert(k.to_string()[1..].to_string(), one(v)?);
    }
    if real.len() != got.len() || got.is_empty() != real.is_empty() {
        return Err(format!("{}: {} vocabularies, {} of them named", who, got.len(), real.len()));
    }
    if real != want {
        return Err(format!("{}: vocabularies read: {:?}\nstored:            {:?}", who, differ(&real, &want), differ(&want, &real)));
    }
    Ok(())
}
fn differ<K: Ord + Clone, T: PartialEq + Clone>(a: &BTreeMap<K, T>, b: &BTreeMap<K, T>) -> BTreeMap<K, T> {
    a.iter().filter(|(k, v)| b.get(*k) != Some(*v)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn one(v: &Vocabulary) -> Result<(i64, i64, BTreeMap<i64, DAttr>), String> {
    let mut attrs = BTreeMap::new();
    for (e, a) in v.attributes() {
        let mut s = mentat::Schema::default();
        s.attribute_map.insert(*e, a.clone());
        if a.component {
            s.component_attributes.push(*e);
        }
        let d = of_schema(&s)?;
        if attrs.insert(*e, d.attrs[e].clone()).is_some() {
            return Err(format!("attribute {} is listed twice", e));
        }
    }
    Ok((v.entity.into(), v.version as i64, attrs))
}

/// Reading the vocabularies through `h` gives what the datoms say.
fn readers<H: HasVocabularies>(h: &H, want: &State, who: &str) -> Result<(), String> {
    same_vocs(&h.read_vocabularies().map_err(|e| format!("{}: read_vocabularies: {}", who, e))?, want, who)?;
    for n in ["voc/p", "voc/q", "v/a", "v/b", "db.schema/core", "voc/none"] {
        let got = h.read_vocabulary_named(&kw(n));
        match (want.vocs.get(n), got) {
            (None, Ok(None)) => {}
            (Some(v), Err(_)) if v.version <= 0 || v.version >= u32::max_value() as i64 => {}
            (Some(v), Ok(Some(g))) => {
                let d = &want.d.attrs;
                let w = (v.entity, v.version, v.attrs.iter().filter_map(|a| d.get(a).map(|x| (*a, x.clone()))).collect());
                if one(&g)? != w {
                    return Err(format!("{}: vocabulary {} read as {:?}, stored: {:?}", who, n, g, w));
                }
            }
            (w, g) => return Err(format!("{}: vocabulary {} read as {:?}, stored: {:?}", who, n, g, w)),
        }
    }
    Ok(())
}

#[derive(Clone)]
struct Marks(i64);

struct Sx {
    db: Db,
    d1: i64,
    d2: i64,
    m: Marks,
}
impl St for Sx {
    fn fork(&self) -> Self {
        Sx { db: self.db.fork(), d1: self.d1, d2: self.d2, m: self.m.clone() }
    }
}

fn concrete(s: &Sx, op: &Op) -> Op {
    match op {
        Op::Tx(t) => Op::Tx(t.replace("$1", &s.d1.to_string()).replace("$2", &s.d2.to_string())),
        o => o.clone(),
    }
}

/// Run an operation in a transaction of its own; also says whether what is committed was unchanged
/// when it was refused and the transaction went on.
fn run_op(s: &mut Sx, op: &Op, want_read: bool, commit_refused: bool) -> Result<Result<BTreeMap<String, &'static str>, String>, String> {
    let op = concrete(s, op);
    let (sql, conn) = (&mut s.db.sql, &mut s.db.conn);
    guard(|| -> Result<Result<BTreeMap<String, &'static str>, String>, String> {
        let mut ip = conn.begin_transaction(sql).map_err(|e| format!("begin: {}", e))?;
        let r = ensure(&mut ip, &op);
        if r.is_ok() && want_read {
            // Within the transaction, from its own view of the datoms.
            let st = read_state(&ip)?;
            readers(&ip, &st, "in the transaction")?;
        }
        if r.is_ok() || commit_refused {
            ip.commit().map_err(|e| format!("commit: {}", e))?;
        }
        Ok(r)
    })
    .and_then(|r| r)
}

/// The state as seen by queries inside a transaction.
fn read_state(ip: &InProgress<'_, '_>) -> Result<State, String> {
    use mentat::query::QueryResults;
    let d = of_schema(&ip.schema)?;
    let q = |text: &str| -> Result<Vec<Vec<V>>, String> {
        match ip.q_once(text, None).map_err(|e| e.to_string())?.results {
            QueryResults::Rel(r) => Ok(r.rows().map(|r| r.iter().map(crate::c::c10::val).collect()).collect()),
            _ => Err("not a relation".into()),
        }
    };
    let mut vocs = BTreeMap::new();
    let names: BTreeMap<i64, String> = d.idents.iter().map(|(k, e)| (*e, k.clone())).collect();
    let attrs = q("[:find ?v ?a :where [?v :db.schema/attribute ?a]]")?;
    for r in q("[:find ?v ?n :where [?v :db.schema/version ?n]]")? {
        if let (V::Ref(e), V::Long(n)) = (&r[0], &r[1]) {
            if let Some(name) = names.get(e) {
                vocs.insert(name.clone(), Voc { entity: *e, version: *n, attrs: attrs.iter().filter(|a| a[0] == r[0]).map(|a| if let V::Ref(x) = a[1] { x } else { -9 }).collect() });
            }
        }
    }
    Ok(State { d, vocs, data: BTreeSet::new() })
}

fn defs_of(op: &Op) -> Option<(Vec<Def>, Hook, bool)> {
    match op {
        Op::Ensure(d) => Some((vec![d.clone()], Hook::None, false)),
        Op::Many(ds, h) => Some((ds.clone(), *h, true)),
        Op::Tx(_) => None,
    }
}

fn key(s: &State, marks: i64) -> (Vec<(String, i64)>, Vec<(i64, String)>, Vec<String>, Vec<Datom>, i64) {
    (
        s.d.idents.iter().map(|(a, b)| (a.clone(), *b)).collect(),
        s.d.attrs.iter().map(|(a, b)| (*a, format!("{:?}", b))).collect(),
        s.vocs.iter().map(|x| format!("{:?}", x)).collect(),
        s.data.iter().filter(|x| x.1 != marks).cloned().collect(),
        0,
    )
}
type Key = (Vec<(String, i64)>, Vec<(i64, String)>, Vec<String>, Vec<Datom>, i64);

fn step(ctx: &Ctx, s: &mut Sx, op: &Op) -> Result<Option<Key>, String> {
    let before = s.db.dump();
    let b = state(&before.datoms)?;
    let (defs, hook, many) = match defs_of(op) {
        None => {
            let r = run_op(s, op, false, false)?;
            if r.is_err() {
                return Ok(None);
            }
            let a = state(&s.db.datoms())?;
            for (who, db) in [("after commit", None), ("after reopening", Some(s.db.fork()))] {
                let db = db.as_ref();
                let vs = match db {
                    None => {
                        let ip = s.db.conn.begin_read(&mut s.db.sql).map_err(|e| e.to_string())?;
                        readers(&ip, &a, who)
                    }
                    Some(_) => Ok(()),
                };
                vs?;
            }
            ctx.count("transacted", 1);
            return Ok(Some(key(&a, s.m.0)));
        }
        Some(x) => x,
    };
    let (verdict, after, marks) = predict(&b, &defs, hook, many);
    let r = run_op(s, op, true, matches!(verdict, Verdict::Refuse(_)))?;
    let now = s.db.dump();
    ctx.outcome(&(format!("{:?}", verdict), r.is_ok()));
    match (&verdict, &r) {
        (Verdict::Refuse(m), Ok(o)) => return Err(format!("must be refused ({}), but: {:?}", m, o)),
        (Verdict::Impossible(m), Ok(o)) => return Err(format!("cannot be done ({}), but: {:?}", m, o)),
        (Verdict::Refuse(m), Err(_)) | (Verdict::Impossible(m), Err(_)) => {
            ctx.count(&format!("refused: {}", m), 1);
            if let Verdict::Refuse(_) = verdict {
                // The transaction went on and was committed.
                if now.datoms != before.datoms || now.schema != before.schema || now.idents != before.idents || now.log != before.log {
                    return Err(format!("refused ({}), but the store changed:\n{:?}", m, now.datoms.keys().filter(|d| !before.datoms.contains_key(d)).collect::<Vec<_>>()));
                }
            } else if now != before {
                return Err(format!("refused ({}) and dropped, but the store changed", m));
            }
            coherent(&s.db)?;
            return Ok(None);
        }
        (Verdict::Done(c), Err(e)) => return Err(format!("must succeed ({:?}), but it is refused: {}", c, e)),
        (Verdict::Done(c), Ok(o)) => {
            let want: BTreeMap<String, &'static str> = c.iter().map(|(n, c)| (n.to_string(), check_name(*c))).collect();
            if &want != o {
                return Err(format!("reported {:?}, happened: {:?}", o, want));
            }
            for c in c.values() {
                ctx.count(check_name(*c), 1);
            }
            if c.values().all(|c| *c == Check::Present) && now != before {
                return Err(format!("it was there already, but the store changed: {:?}", now.log.difference(&before.log).collect::<Vec<_>>()));
            }
        }
    }
    coherent(&s.db)?;
    let real = state(&now.datoms)?;
    let mut want = rename(&after, &real).ok_or_else(|| format!("idents missing: {:?}", after.d.idents.keys().filter(|k| !real.d.idents.contains_key(*k)).collect::<Vec<_>>()))?;
    // The marks left by post functions.
    let mut left: Vec<i64> = real.data.iter().filter(|d| d.1 == s.m.0 && !b.data.contains(d)).map(|d| if let V::Long(l) = d.2 { l } else { -1 }).collect();
    left.sort();
    let mut marks = marks;
    marks.sort();
    if left != marks {
        return Err(format!("post functions left {:?}, should have left {:?}", left, marks));
    }
    want.data.extend(real.data.iter().filter(|d| d.1 == s.m.0).cloned());
    if real != want {
        let mut m = String::from("the store is not as the definition says:\n");
        if real.d.idents != want.d.idents {
            m.push_str(&format!("idents: {:?}, should be {:?}\n", differ(&real.d.idents, &want.d.idents), differ(&want.d.idents, &real.d.idents)));
        }
        if real.d.attrs != want.d.attrs {
            m.push_str(&format!("attributes: {:?}, should be {:?}\n", differ(&real.d.attrs, &want.d.attrs), differ(&want.d.attrs, &real.d.attrs)));
        }
        if real.vocs != want.vocs {
            m.push_str(&format!("vocabularies: {:?}, should be {:?}\n", differ(&real.vocs, &want.vocs), differ(&want.vocs, &real.vocs)));
        }
        if real.data != want.data {
            m.push_str(&format!("data: {:?}, should be {:?}\n", real.data.difference(&want.data).collect::<Vec<_>>(), want.data.difference(&real.data).collect::<Vec<_>>()));
        }
        return Err(m);
    }
    // Read back: here, and from a fresh open; once more is nothing.
    let mut re = s.fork();
    for (who, x) in [("after commit", &mut *s), ("after reopening", &mut re)] {
        {
            let ip = x.db.conn.begin_read(&mut x.db.sql).map_err(|e| e.to_string())?;
            readers(&ip, &real, who)?;
        }
        let log = x.db.log();
        let r = run_op(x, op, true, false)?;
        match r {
            Ok(o) if o.values().all(|o| *o == "existed") => {}
            r => return Err(format!("{}, ensuring it once more: {:?}", who, r)),
        }
        if x.db.log() != log {
            return Err(format!("{}, ensuring it once more changed the store", who));
        }
        let ip = x.db.conn.begin_transaction(&mut x.db.sql).map_err(|e| e.to_string())?;
        ip.verify_core_schema().map_err(|e| format!("{}: {}", who, e))?;
    }
    Ok(Some(key(&real, s.m.0)))
}

/// Two operations in one transaction do what they do in two.
fn together(ctx: &Ctx, s: &Sx, o1: &Op, o2: &Op) -> Result<(), String> {
    let mut two = s.fork();
    let r1 = run_op(&mut two, o1, false, false)?;
    if r1.is_err() {
        return Ok(());
    }
    let r2 = run_op(&mut two, o2, false, false)?;
    let mut one = s.fork();
    let (c1, c2) = (concrete(s, o1), concrete(s, o2));
    let got = {
        let (sql, conn) = (&mut one.db.sql, &mut one.db.conn);
        guard(|| -> Result<_, String> {
            let mut ip = conn.begin_transaction(sql).map_err(|e| e.to_string())?;
            let r1 = ensure(&mut ip, &c1);
            let r2 = ensure(&mut ip, &c2);
            let st = read_state(&ip)?;
            if r2.is_ok() {
                readers(&ip, &st, "in the transaction")?;
                ip.commit().map_err(|e| e.to_string())?;
            }
            Ok((r1, r2))
        })
        .and_then(|r| r)?
    };
    ctx.trace(1);
    ctx.transition(4);
    let ok = |r: &Result<BTreeMap<String, &'static str>, String>| r.clone().map_err(|_| ());
    if (ok(&got.0), ok(&got.1)) != (ok(&r1), ok(&r2)) {
        return Err(format!("in two transactions: {:?} {:?}\nin one: {:?}", r1, r2, got));
    }
    if r2.is_ok() {
        coherent(&one.db)?;
        let (a, b) = (state(&one.db.datoms())?, state(&two.db.datoms())?);
        let strip = |s: &State| (s.d.idents.keys().cloned().collect::<Vec<_>>(), s.vocs.iter().map(|(n, v)| (n.clone(), v.version)).collect::<Vec<_>>());
        if strip(&a) != strip(&b) || a != b {
            return Err(format!("in two transactions: {:?}\nin one: {:?}", b, a));
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let mk = |pre: &[&Op]| -> Sx {
        let mut db = Db::new();
        db.must("[{:db/ident :m/from :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]");
        let r = db.must("[[:db/add \"d1\" :db/doc \"d1\"] [:db/add \"d2\" :db/doc \"d2\"]]");
        let m = Marks(db.entid("m/from"));
        let mut s = Sx { d1: r.tempids["d1"], d2: r.tempids["d2"], db, m };
        for p in pre {
            run_op(&mut s, p, false, false).unwrap().unwrap();
        }
        s
    };
    let (full, few) = (ops(true), ops(false));
    let base = mk(&[]);
    let runs: Vec<(&str, &Vec<Op>, usize)> = vec![("full", &full, if ctx.thorough { 3 } else { 2 }), ("few", &few, if ctx.thorough { 4 } else { 3 })];
    for (tag, ops, depth) in runs {
        let name = |o: usize| ops[o].text();
        let key0 = key(&state(&base.db.datoms()).expect("start"), base.m.0);
        explore(
            ctx,
            &Search { name: tag, nops: ops.len(), depth, op_name: &name },
            &base,
            key0,
            |s, o| {
                let _ = run_op(s, &ops[o], false, false);
            },
            |s, o| step(ctx, s, &ops[o]),
        );
    }
    // Pairs in one transaction.
    let list = if ctx.thorough { &full } else { &few };
    let n = list.len();
    let shared = std::sync::Mutex::new(base);
    ctx.par_with(
        n * n,
        || shared.lock().unwrap().fork(),
        |b, j| {
            let case = format!("pair|{}", j);
            if !ctx.want(&case) {
                return;
            }
            let (o1, o2) = (&list[j / n], &list[j % n]);
            if let Err(d) = together(ctx, b, o1, o2) {
                ctx.violation(format!("C20/{}", case), case, format!("{}\n  {}\n{}", o1.text(), o2.text(), d));
            }
        },
    );
}
