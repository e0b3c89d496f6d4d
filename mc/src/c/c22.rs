//! C22: every value that is stored is read back unchanged, everywhere.
use crate::c::c10::val;
use crate::db::*;
use crate::h::*;
use crate::val::{kw, V};
use core_traits::TypedValue;
use mentat::{Binding, CacheDirection, QueryInputs, QueryResults, Queryable, Variable};
use mentat_transaction::entity_builder::{BuildTerms, TermBuilder};
use mentat_transaction::CacheAction;
use std::collections::{BTreeMap, BTreeSet};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "for every kind of attribute and every ordered pair of values of its type, the history assert both, retract, replace, retract is run on the real store through EDN text and through typed values; after each step every read path (queries by entity, attribute, literal, input, ground, unknown attribute; lookups; pull; caches; the log; lookup references and upserts; and all again after reopening) is compared with a model that holds the values as they were written",
        bounds: "9 types (with fulltext), 6 kinds of attribute (many, indexed, unique identity, unique value, ...), 7-16 values per type, all ordered pairs (quick: those of a value with itself, the one before and the first), 2 ways of writing, 5 steps",
        assumptions: vec!["instants have microseconds: what is finer is cut off", "-0.0 and 0.0 are the same value", "NaN, the nil UUID and keywords without a namespace may be refused", "the order of multiple values isn't specified"],
    }
}

#[derive(Clone)]
struct Val {
    lit: String,
    v: V,
    typed: TypedValue,
    /// May be refused.
    odd: bool,
}

const TYPES: &[&str] = &["long", "double", "boolean", "instant", "string", "keyword", "uuid", "ref", "fulltext"];
const KINDS: &[&str] = &["one", "idx", "many", "ident", "uval", "manyident"];

fn values(t: &str) -> Vec<Val> {
    let of = |v: V| Val { lit: v.edn(), typed: v.to_typed(), v, odd: false };
    let inst = |s: &str| {
        let d = chrono::DateTime::parse_from_rfc3339(s).unwrap().with_timezone(&chrono::Utc);
        Val { lit: format!("#inst \"{}\"", s), v: V::Inst(d.timestamp() * 1_000_000 + d.timestamp_subsec_micros() as i64), typed: d.into(), odd: false }
    };
    match t {
        "long" => [0, 1, -1, 65536, 1 << 53, (1 << 53) + 1, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1].iter().map(|i| of(V::Long(*i))).collect(),
        "double" => [0.0, -0.0, 1.0, -1.5, 0.1, 9007199254740993.0, 1e21, 1e300, 5e-324, f64::MAX, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].iter().map(|f| Val { odd: f.is_nan(), ..of(V::dbl(*f)) }).collect(),
        "boolean" => [true, false].iter().map(|b| of(V::Bool(*b))).collect(),
        "instant" => ["1970-01-01T00:00:00Z", "1969-12-31T23:59:59.999999Z", "1969-12-31T23:59:59.000001Z", "1969-12-31T23:59:58Z", "2018-01-01T00:00:00.000001Z", "2018-01-01T00:00:00.000001999Z", "2017-12-31T23:00:00.5-01:00", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999Z", "1500-06-01T00:00:00.25Z"].iter().map(|s| inst(s)).collect(),
        "string" | "fulltext" => ["", "a", "A", " a", "a ", "'", "a\"b", "\\", "a\\n", "a\nb", "%", "é𝄞", "e\u{301}", "1", ":a/b", "nil", "$v0", "a\u{0}b"].iter().map(|s| of(V::s(s))).collect(),
        "keyword" => ["a/b", "a/B", "a.b/c-d", "db/ident", "a/_b", "1/2", "a/b?", "plain"].iter().map(|s| Val { odd: !s.contains('/'), ..of(V::kw(s)) }).collect(),
        "uuid" => [[0u8; 16], [0xff; 16], [0x4c, 0xb3, 0xf8, 0x28, 0x75, 0x2d, 0x49, 0x7a, 0x90, 0xc9, 0xb1, 0xfd, 0x51, 0x6d, 0x56, 0x44], [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], *b"abcdefghijklmno\x00", [0x27; 16]].iter().map(|b| Val { odd: b.iter().all(|x| *x == 0), ..of(V::Uuid(*b)) }).collect(),
        "ref" => [1, 10, 0x1000_0000].iter().map(|e| of(V::Ref(*e))).collect(),
        t => panic!("{}", t),
    }
}

/// What may not be told apart.
fn norm(v: &V) -> V {
    match v {
        V::Dbl(b) if f64::from_bits(*b) == 0.0 => V::dbl(0.0),
        v => v.clone(),
    }
}

fn attr(t: &str, k: &str) -> String {
    format!("{}/{}", t, k)
}

fn schema() -> Db {
    let mut db = Db::new();
    let mut s = String::from("[");
    for t in TYPES {
        for k in KINDS {
            s += &format!(
                "{{:db/ident :{} :db/valueType :db.type/{} :db/cardinality :db.cardinality/{}{}}}",
                attr(t, k),
                if *t == "fulltext" { "string" } else { t },
                if k.starts_with("many") { "many" } else { "one" },
                match (*t, *k) {
                    ("fulltext", "ident") | ("fulltext", "manyident") => " :db/index true :db/fulltext true :db/unique :db.unique/identity",
                    ("fulltext", "uval") => " :db/index true :db/fulltext true :db/unique :db.unique/value",
                    ("fulltext", _) => " :db/index true :db/fulltext true",
                    (_, "idx") => " :db/index true",
                    (_, "ident") | (_, "manyident") => " :db/index true :db/unique :db.unique/identity",
                    (_, "uval") => " :db/index true :db/unique :db.unique/value",
                    _ => "",
                }
            );
        }
    }
    s += "{:db/ident :n/note :db/valueType :db.type/string :db/cardinality :db.cardinality/one}]";
    db.must(&s);
    // Entities 1, 2 and 3; and one that has a value of every type, which has to stay readable.
    db.must("[{:db/ident :e/e1} {:db/ident :e/e2} {:db/ident :e/e3} {:db/ident :e/other :long/one 3 :double/one 2.5 :boolean/one true :instant/one #inst \"2001-01-01T00:00:00Z\" :string/one \"other\" :keyword/one :o/ther :uuid/one #uuid \"11111111-2222-3333-4444-555555555555\" :ref/one 5 :fulltext/one \"other text\"}]");
    db
}

const OTHER: usize = 9;

/// e -> values of the attribute
type Truth = BTreeMap<i64, BTreeSet<V>>;

struct Site<'a> {
    a: String,
    kind: &'a str,
    es: [i64; 3],
    other: i64,
}

/// What the accessors say about a value: the one of its type gives it, the others nothing.
fn accessors(b: &Binding) -> Result<(), String> {
    let t = match b {
        Binding::Scalar(t) => t,
        _ => return Err(format!("{:?} isn't a scalar", b)),
    };
    let v = V::from_typed(t);
    let of = |t: &TypedValue| V::from_typed(t);
    let inst = |i: chrono::DateTime<chrono::Utc>| V::Inst(i.timestamp() * 1_000_000 + i.timestamp_subsec_micros() as i64);
    let secs = |i: i64| match v {
        V::Inst(us) if us.div_euclid(1_000_000) == i => v.clone(),
        _ => V::Bad(format!("timestamp {}", i)),
    };
    let uuid = |s: String| match v {
        V::Uuid(b) if format!("#uuid \"{}\"", s) == V::Uuid(b).edn() => v.clone(),
        _ => V::Bad(s),
    };
    let got: Vec<(&str, &str, Option<V>)> = vec![
        ("ref", "as_entid", b.as_entid().map(|e| V::Ref(*e))),
        ("ref", "into_entid", b.clone().into_entid().map(V::Ref)),
        ("ref", "into_known_entid", b.clone().into_known_entid().map(|e| V::Ref(e.0))),
        ("ref", "TypedValue::into_entid", t.clone().into_entid().map(V::Ref)),
        ("ref", "TypedValue::into_known_entid", t.clone().into_known_entid().map(|e| V::Ref(e.0))),
        ("boolean", "as_boolean", b.as_boolean().map(|x| V::Bool(*x))),
        ("boolean", "into_boolean", b.clone().into_boolean().map(V::Bool)),
        ("boolean", "TypedValue::into_boolean", t.clone().into_boolean().map(V::Bool)),
        ("instant", "as_instant", b.as_instant().map(|x| inst(*x))),
        ("instant", "into_instant", b.clone().into_instant().map(inst)),
        ("instant", "into_timestamp", b.clone().into_timestamp().map(secs)),
        ("instant", "TypedValue::into_instant", t.clone().into_instant().map(inst)),
        ("instant", "TypedValue::into_timestamp", t.clone().into_timestamp().map(secs)),
        ("long", "as_long", b.as_long().map(|x| V::Long(*x))),
        ("long", "into_long", b.clone().into_long().map(V::Long)),
        ("long", "TypedValue::into_long", t.clone().into_long().map(V::Long)),
        ("double", "as_double", b.as_double().map(|x| V::dbl(*x))),
        ("double", "into_double", b.clone().into_double().map(V::dbl)),
        ("double", "TypedValue::into_double", t.clone().into_double().map(V::dbl)),
        ("string", "as_string", b.as_string().map(|x| V::s(x))),
        ("string", "into_string", b.clone().into_string().map(|x| V::s(&x))),
        ("string", "TypedValue::into_string", t.clone().into_string().map(|x| V::s(&x))),
        ("keyword", "as_kw", b.as_kw().map(|x| of(&TypedValue::Keyword(x.clone())))),
        ("keyword", "into_kw", b.clone().into_kw().map(|x| of(&TypedValue::Keyword(x)))),
        ("keyword", "TypedValue::into_kw", t.clone().into_kw().map(|x| of(&TypedValue::Keyword(x)))),
        ("uuid", "as_uuid", b.as_uuid().map(|x| V::Uuid(*x.as_bytes()))),
        ("uuid", "into_uuid", b.clone().into_uuid().map(|x| V::Uuid(*x.as_bytes()))),
        ("uuid", "into_uuid_string", b.clone().into_uuid_string().map(uuid)),
        ("uuid", "TypedValue::into_uuid", t.clone().into_uuid().map(|x| V::Uuid(*x.as_bytes()))),
        ("uuid", "TypedValue::into_uuid_string", t.clone().into_uuid_string().map(uuid)),
    ];
    let (mine, kind) = match v {
        V::Ref(_) => ("ref", mentat::ValueType::Ref),
        V::Bool(_) => ("boolean", mentat::ValueType::Boolean),
        V::Inst(_) => ("instant", mentat::ValueType::Instant),
        V::Long(_) => ("long", mentat::ValueType::Long),
        V::Dbl(_) => ("double", mentat::ValueType::Double),
        V::Str(_) => ("string", mentat::ValueType::String),
        V::Kw(_) => ("keyword", mentat::ValueType::Keyword),
        V::Uuid(_) => ("uuid", mentat::ValueType::Uuid),
        V::Bad(_) => return Err(format!("{:?}", t)),
    };
    for (ty, name, x) in got {
        let want = if ty == mine { Some(v.clone()) } else { None };
        if x != want {
            return Err(format!("{} of {:?} is {:?}", name, b, x));
        }
    }
    let types = t.value_type() == kind && t.matches_type(kind) && b.value_type() == Some(kind) && b.matches_type(kind) && t.is_congruent_with(kind) && b.is_congruent_with(None);
    if !types || b.as_scalar() != Some(t) || b.clone().into_scalar().as_ref() != Some(t) || b.as_vec().is_some() || b.as_map().is_some() || b.clone().into_vec().is_some() || b.clone().into_map().is_some() {
        return Err(format!("the type of {:?}", b));
    }
    Ok(())
}

fn rows(db: &Db, q: &str, inputs: Option<TypedValue>) -> Result<BTreeSet<Vec<V>>, String> {
    let i = inputs.map(|v| QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?in"), v)]));
    guard(|| db.conn.q_once(&db.sql, q, i).map_err(|e| e.to_string()))?.map_err(|e| format!("{}: {}", q, e)).and_then(|o| {
        match &o.results {
            QueryResults::Rel(r) => r.rows().flatten().map(accessors).collect::<Result<(), String>>()?,
            QueryResults::Scalar(s) => s.iter().map(accessors).collect::<Result<(), String>>()?,
            QueryResults::Coll(s) => s.iter().map(accessors).collect::<Result<(), String>>()?,
            QueryResults::Tuple(s) => s.iter().flatten().map(accessors).collect::<Result<(), String>>()?,
        }
        Ok(o)
    }).and_then(|o| match o.results {
        QueryResults::Rel(r) => Ok(r.rows().map(|r| r.iter().map(|b| norm(&val(b))).collect()).collect()),
        QueryResults::Scalar(s) => Ok(s.iter().map(|b| vec![norm(&val(b))]).collect()),
        QueryResults::Coll(s) => Ok(s.iter().map(|b| vec![norm(&val(b))]).collect()),
        QueryResults::Tuple(s) => Ok(s.iter().map(|t| t.iter().map(|b| norm(&val(b))).collect()).collect()),
    })
}

fn expect<T: PartialEq + std::fmt::Debug>(what: &str, got: Result<T, String>, want: T) -> Result<(), String> {
    match got {
        Ok(ref g) if *g == want => Ok(()),
        g => Err(format!("{} gives {:?} instead of {:?}", what, g, want)),
    }
}

/// All the ways to read the attribute.
fn check(ctx: &Ctx, db: &mut Db, s: &Site, truth: &Truth, domain: &[&Val], log: Option<(i64, &BTreeSet<Vec<V>>)>) -> Result<(), String> {
    let key = kw(&s.a);
    let all: BTreeSet<Vec<V>> = truth.iter().flat_map(|(e, vs)| vs.iter().map(move |v| vec![V::Ref(*e), v.clone()])).collect();
    let q = format!("[:find ?e ?v :where [?e :{} ?v]]", s.a);
    expect(&q, rows(db, &q, None), all.clone())?;
    let q = format!("[:find [?v ...] :where [?e :{} ?v]]", s.a);
    expect(&q, rows(db, &q, None), all.iter().map(|r| vec![r[1].clone()]).collect())?;
    for e in &s.es {
        let empty = BTreeSet::new();
        let vs = truth.get(e).unwrap_or(&empty);
        let want: BTreeSet<Vec<V>> = vs.iter().map(|v| vec![v.clone()]).collect();
        let q = format!("[:find ?v :where [{} :{} ?v]]", e, s.a);
        expect(&q, rows(db, &q, None), want.clone())?;
        let q = format!("[:find ?v :where [{} ?p ?v] [?p :db/ident :{}]]", e, s.a);
        expect(&q, rows(db, &q, None), want.clone())?;
        if vs.len() <= 1 {
            let q = format!("[:find ?v . :where [{} :{} ?v]]", e, s.a);
            expect(&q, rows(db, &q, None), want.clone())?;
            let got = guard(|| db.conn.lookup_value_for_attribute(&db.sql, *e, &key)).and_then(|r| r.map_err(|e| e.to_string()));
            expect("lookup_value_for_attribute", got.map(|v| v.iter().map(|v| norm(&V::from_typed(v))).collect()), vs.clone())?;
        }
        let got = guard(|| db.conn.lookup_values_for_attribute(&db.sql, *e, &key)).and_then(|r| r.map_err(|e| e.to_string()));
        expect("lookup_values_for_attribute", got.map(|v| v.iter().map(|v| norm(&V::from_typed(v))).collect()), vs.clone())?;
        let q = format!("[:find (pull ?e [:{}]) . :where [?e :db/ident ?i] [(ground {}) ?e]]", s.a, e);
        let got = guard(|| db.conn.q_once(&db.sql, &q, None)).and_then(|r| r.map_err(|e| e.to_string()));
        let got = got.and_then(|o| match o.results {
            QueryResults::Scalar(Some(Binding::Map(m))) => match m.0.get(&key) {
                None => Ok(BTreeSet::new()),
                Some(Binding::Scalar(v)) => Ok(std::iter::once(norm(&V::from_typed(v))).collect()),
                Some(Binding::Vec(vs)) => Ok(vs.iter().map(|b| norm(&val(b))).collect()),
                Some(x) => Err(format!("{:?}", x)),
            },
            x => Err(format!("{:?}", x)),
        });
        expect(&q, got, vs.clone())?;
        ctx.eval(6);
    }
    for d in domain {
        let want: BTreeSet<Vec<V>> = truth.iter().filter(|(_, vs)| vs.contains(&norm(&d.v))).map(|(e, _)| vec![V::Ref(*e)]).collect();
        let q = format!("[:find ?e :where [?e :{} {}]]", s.a, d.lit);
        expect(&q, rows(db, &q, None), want.clone())?;
        let q = format!("[:find ?e :in ?in :where [?e :{} ?in]]", s.a);
        expect(&format!("{} with {:?}", q, d.v), rows(db, &q, Some(d.typed.clone())), want.clone())?;
        let q = format!("[:find ?e ?v :in ?in :where [?e :{} ?v] [?e :{} ?in]]", s.a, s.a);
        let both = truth.iter().filter(|(_, vs)| vs.contains(&norm(&d.v))).flat_map(|(e, vs)| vs.iter().map(move |v| vec![V::Ref(*e), v.clone()])).collect();
        expect(&format!("{} with {:?}", q, d.v), rows(db, &q, Some(d.typed.clone())), both)?;
        // Grounding an integer or a keyword may stand for an entity.
        if !matches!(d.v, V::Ref(_)) {
            let q = format!("[:find ?e ?v :where [(ground {}) ?v] [?e :{} ?v]]", d.lit, s.a);
            expect(&q, rows(db, &q, None), want.iter().map(|r| vec![r[0].clone(), norm(&d.v)]).collect())?;
            let q = format!("[:find ?e ?v :where [(ground [{}]) [?v ...]] [?e :{} ?v]]", d.lit, s.a);
            expect(&q, rows(db, &q, None), want.iter().map(|r| vec![r[0].clone(), norm(&d.v)]).collect())?;
        }
        ctx.eval(5);
    }
    if let Some((tx, changes)) = log {
        let q = format!("[:find ?e ?a ?v ?added :where [(tx-data $ {}) [[?e ?a ?v _ ?added]]]]", tx);
        let got = rows(db, &q, None).map(|rs| rs.into_iter().filter(|r| r[0] != V::Ref(tx)).collect());
        expect(&q, got, changes.clone())?;
    }
    // The rest is still there.
    let q = format!("[:find ?a ?v :where [{} ?a ?v]]", s.other);
    let got = rows(db, &q, None).map(|rs| rs.len());
    let mine = truth.get(&s.other).map_or(0, |vs| vs.len());
    expect(&q, got, OTHER + 1 + if s.kind == "one" { 0 } else { mine })?;
    rows(db, "[:find ?e ?a ?v :where [?e ?a ?v]]", None)?;
    Ok(())
}

fn reopened(ctx: &Ctx, db: &Db, s: &Site, truth: &Truth, domain: &[&Val]) -> Result<(), String> {
    let mut d = db.try_fork().map_err(|e| format!("reopening: {}", e))?;
    check(ctx, &mut d, s, truth, domain, None).map_err(|e| format!("after reopening: {}", e))?;
    let key = kw(&s.a);
    for dir in [CacheDirection::Forward, CacheDirection::Reverse, CacheDirection::Both].iter() {
        let (sql, conn) = (&mut d.sql, &mut d.conn);
        let schema = conn.current_schema();
        guard(|| conn.cache(sql, &schema, &key, *dir, CacheAction::Register)).and_then(|r| r.map_err(|e| e.to_string())).map_err(|e| format!("caching: {}", e))?;
        check(ctx, &mut d, s, truth, domain, None).map_err(|e| format!("with a {:?} cache: {}", dir, e))?;
        let (sql, conn) = (&mut d.sql, &mut d.conn);
        let schema = conn.current_schema();
        guard(|| conn.cache(sql, &schema, &key, *dir, CacheAction::Deregister)).and_then(|r| r.map_err(|e| e.to_string())).map_err(|e| format!("uncaching: {}", e))?;
    }
    Ok(())
}

/// Naming an entity by the value in a transaction.
fn refs(db: &Db, s: &Site, truth: &Truth, domain: &[&Val], typed: bool) -> Result<(), String> {
    for d in domain {
        let holder = truth.iter().find(|(_, vs)| vs.contains(&norm(&d.v))).map(|(e, _)| *e);
        let mut f = db.fork();
        let note = f.entid("n/note");
        let r = if typed {
            let (sql, conn) = (&mut f.sql, &mut f.conn);
            guard(|| {
                let mut b = TermBuilder::new();
                b.add(TermBuilder::lookup_ref(kw(&s.a), d.typed.clone()), kw("n/note"), TypedValue::from("named")).unwrap();
                let mut ip = conn.begin_transaction(sql).map_err(|e| e.to_string())?;
                ip.transact_builder(b).map_err(|e| e.to_string())?;
                ip.commit().map_err(|e| e.to_string())
            })
            .and_then(|r| r)
        } else {
            f.transact(&format!("[[:db/add (lookup-ref :{} {}) :n/note \"named\"]]", s.a, d.lit)).map(|_| ())
        };
        let named: Vec<i64> = f.datoms().keys().filter(|(_, a, v)| *a == note && *v == V::s("named")).map(|(e, _, _)| *e).collect();
        match (holder, &r) {
            (Some(e), Ok(())) if named == vec![e] => {}
            (None, Err(e)) if named.is_empty() && !e.starts_with("PANIC") => {}
            _ => return Err(format!("(lookup-ref :{} {}) ({}): {:?}, named {:?}, but {:?} has the value", s.a, d.lit, if typed { "typed" } else { "text" }, r, named, holder)),
        }
        if s.kind.ends_with("ident") && !typed {
            let mut f = db.fork();
            let r = f.transact(&format!("[{{:db/id \"t\" :{} {} :n/note \"upserted\"}}]", s.a, d.lit)).map(|_| ());
            let named: Vec<i64> = f.datoms().keys().filter(|(_, a, v)| *a == note && *v == V::s("upserted")).map(|(e, _, _)| *e).collect();
            let ok = match (holder, &r) {
                (Some(e), Ok(())) => named == vec![e],
                (None, Ok(())) => named.len() == 1 && !s.es.contains(&named[0]),
                (None, Err(e)) => d.odd && named.is_empty() && !e.starts_with("PANIC"),
                _ => false,
            };
            if !ok {
                return Err(format!("upserting {{:{} {}}}: {:?}, entity {:?}, but {:?} has the value", s.a, d.lit, r, named, holder));
            }
        }
    }
    Ok(())
}

fn change(db: &mut Db, s: &Site, e: i64, d: &Val, add: bool, typed: bool) -> Result<i64, String> {
    let (sql, conn) = (&mut db.sql, &mut db.conn);
    guard(|| {
        let mut ip = conn.begin_transaction(sql).map_err(|e| e.to_string())?;
        let r = if typed {
            let mut b = TermBuilder::new();
            let e = mentat::KnownEntid(e);
            if add {
                b.add(e, kw(&s.a), d.typed.clone()).unwrap();
            } else {
                b.retract(e, kw(&s.a), d.typed.clone()).unwrap();
            }
            ip.transact_builder(b)
        } else {
            ip.transact(format!("[[:db/{} {} :{} {}]]", if add { "add" } else { "retract" }, e, s.a, d.lit).as_str())
        };
        let r = r.map_err(|e| e.to_string())?;
        ip.commit().map_err(|e| e.to_string())?;
        Ok(r.tx_id)
    })
    .and_then(|r| r)
}

fn history(ctx: &Ctx, root: &Db, t: &str, kind: &str, v: &Val, w: &Val, typed: bool) -> Result<(), String> {
    let mut db = root.fork();
    let s = Site { a: attr(t, kind), kind, es: [db.entid("e/e1"), db.entid("e/e2"), db.entid("e/e3")], other: db.entid("e/other") };
    let aid = db.entid(&s.a);
    let many = kind.starts_with("many");
    let unique = kind.ends_with("ident") || kind == "uval";
    let mut truth = Truth::new();
    if kind == "one" {
        let q = rows(&db, &format!("[:find ?v :where [{} :{} ?v]]", s.other, s.a), None)?;
        truth.insert(s.other, q.into_iter().map(|r| r[0].clone()).collect());
    }
    let domain: Vec<&Val> = if v.lit == w.lit { vec![v] } else { vec![v, w] };
    let (e1, e2) = (s.es[0], s.es[1]);
    for (i, (e, d, add)) in vec![(e1, v, true), (e2, w, true), (e2, w, false), (e1, w, true), (e1, w, false)].into_iter().enumerate() {
        let before = db.dump();
        let x = norm(&d.v);
        let step = |m: String| format!("step {} ({} {} {}): {}", i, if add { "add" } else { "retract" }, e, d.lit, m);
        ctx.transition(1);
        let held = truth.get(&e).map_or(false, |vs| vs.contains(&x));
        let taken = unique && add && truth.iter().any(|(f, vs)| *f != e && vs.contains(&x));
        match change(&mut db, &s, e, d, add, typed) {
            Ok(tx) => {
                if taken {
                    return Err(step("two entities have the same unique value".into()));
                }
                let mut changes = BTreeSet::new();
                let mut log = |v: &V, added: bool| {
                    changes.insert(vec![V::Ref(e), V::Ref(aid), v.clone(), V::Bool(added)]);
                };
                let vs = truth.entry(e).or_default();
                if add && !held {
                    if !many {
                        vs.iter().for_each(|o| log(o, false));
                        vs.clear();
                    }
                    vs.insert(x.clone());
                    log(&x, true);
                } else if !add && held {
                    vs.remove(&x);
                    log(&x, false);
                }
                truth.retain(|_, vs| !vs.is_empty());
                check(ctx, &mut db, &s, &truth, &domain, Some((tx, &changes))).map_err(step)?;
                if unique && (i == 1 || i == 3) {
                    refs(&db, &s, &truth, &domain, typed).map_err(step)?;
                }
                if i == 1 || i == 3 {
                    reopened(ctx, &db, &s, &truth, &domain).map_err(step)?;
                }
                ctx.outcome(&(&truth, i));
            }
            Err(m) => {
                if m.starts_with("PANIC") || !(d.odd || taken) {
                    return Err(step(format!("refused: {}", m)));
                }
                ctx.count("refused_as_it_may_be", 1);
                let mut d = db.try_fork().map_err(|e| step(format!("reopening after a refusal: {}", e)))?;
                if d.dump() != before || db.dump() != before {
                    return Err(step("was refused, but has changed the store".into()));
                }
                check(ctx, &mut d, &s, &truth, &domain.iter().filter(|d| !d.odd).cloned().collect::<Vec<_>>(), None).map_err(step)?;
            }
        }
    }
    ctx.state(5);
    ctx.trace(1);
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let mut cases = vec![];
    for t in TYPES {
        let vs = values(t);
        for k in KINDS {
            for i in 0..vs.len() {
                for j in 0..vs.len() {
                    // A value with itself, with the one before it, and with the first one.
                    if !ctx.thorough && i != j && i != j + 1 && j != 0 {
                        continue;
                    }
                    for typed in [false, true].iter() {
                        let case = format!("{}/{} {} {} {}", t, k, vs[i].lit, vs[j].lit, if *typed { "typed" } else { "text" });
                        if ctx.want(&case) {
                            cases.push((*t, *k, vs[i].clone(), vs[j].clone(), *typed, case));
                        }
                    }
                }
            }
        }
    }
    ctx.par_with(cases.len(), schema, |root, n| {
        let (t, k, v, w, typed, case) = &cases[n];
        if ctx.too_many() {
            return;
        }
        if let Err(e) = history(ctx, root, t, k, v, w, *typed) {
            ctx.violation(format!("C22/{}", case), case.clone(), e);
        }
    });
}
