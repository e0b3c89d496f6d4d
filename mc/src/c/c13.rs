//! C13: pull returns exactly an entity's current attribute values.
use crate::c::c10::val;
use crate::db::*;
use crate::h::*;
use crate::val::{kw, V};
use mentat::{Binding, CacheDirection, QueryInputs, QueryResults, Queryable, TypedValue, Variable};
use mentat_transaction::{CacheAction, Pullable};
use std::collections::{BTreeMap, BTreeSet};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every pull specification of a grammar (attributes of every cardinality and kind, aliases, wildcard, :db/id, unknown and non-attribute idents) in every find specification of a set, and every list of entities and attributes through the pull API of the store, a transaction and a read, over every subset of present attributes reached by assertion, replacement and retraction, run on the real store; each map is compared with the datoms read from the tables",
        bounds: "8 attributes, 5 entities; 256 databases; specifications of <= 2 items of 16 (thorough: <= 3); entity lists of <= 2 (thorough: <= 3) with repetitions, attribute lists likewise",
        assumptions: vec!["the order of the values of an attribute and of the keys of a map is not specified", "an explicitly aliased attribute may also appear under its own name if there is a wildcard"],
    }
}

const ATTRS: &[(&str, &str, bool)] = &[("c/a1", "long", false), ("c/am", "string", true), ("c/r1", "ref", false), ("c/rm", "ref", true), ("c/f1", "fulltext", false), ("c/fm", "fulltext", true), ("c/k1", "keyword", false), ("c/b1", "boolean", false)];

/// (first value, second value, value replaced or retracted before)
fn values(i: usize) -> [&'static str; 3] {
    match ATTRS[i].1 {
        "long" => ["1", "2", "9"],
        "string" => ["\"x\"", "\"y\"", "\"old\""],
        "ref" => [":e/q", ":e/r", ":e/t"],
        "fulltext" => ["\"hello\"", "\"world\"", "\"old text\""],
        "keyword" => [":k/x", ":c/a1", ":k/old"],
        _ => ["true", "true", "false"],
    }
}

fn schema() -> Db {
    let mut db = Db::new();
    let mut s = String::from("[");
    for (n, t, many) in ATTRS {
        let t = if *t == "fulltext" { "string :db/index true :db/fulltext true" } else { t };
        s += &format!("{{:db/ident :{} :db/valueType :db.type/{} :db/cardinality :db.cardinality/{}}}", n, t, if *many { "many" } else { "one" });
    }
    s += "{:db/ident :k/name :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true}]";
    db.must(&s);
    db.must("[{:db/ident :e/p :k/name \"p\"} {:db/ident :e/q :k/name \"q\"} {:db/ident :e/r :k/name \"r\"} {:db/ident :e/t}]");
    db
}

/// P has the attributes in `mask`; Q has the others and shares some; what else they had is gone.
fn database(root: &Db, mask: usize) -> Db {
    let mut db = root.fork();
    let (mut before, mut after) = (String::from("["), String::from("["));
    for (i, (n, _, many)) in ATTRS.iter().enumerate() {
        let [a, b, old] = values(i);
        before += &format!("[:db/add :e/p :{} {}] [:db/add :e/q :{} {}]", n, old, n, old);
        let mut set = |e: &str, vs: Vec<&str>| {
            for v in vs.iter().take(if *many { 2 } else { 1 }) {
                after += &format!("[:db/add {} :{} {}]", e, n, v);
            }
            if vs.is_empty() || *many {
                after += &format!("[:db/retract {} :{} {}]", e, n, old);
            }
        };
        set(":e/p", if mask >> i & 1 == 1 { vec![a, b] } else { vec![] });
        set(":e/q", if mask >> i & 1 == 0 { if i % 2 == 0 { vec![b] } else { vec![b, a] } } else { vec![] });
    }
    db.must(&(before + "]"));
    db.must(&(after + "[:db/add :e/r :c/am \"x\"] [:db/add :e/r :c/r1 :e/r]]"));
    db
}

#[derive(Clone, Debug)]
enum Item {
    Attr(&'static str, Option<&'static str>),
    Wild,
    Id(Option<&'static str>),
}

fn items() -> Vec<Item> {
    use Item::*;
    let mut v: Vec<Item> = ATTRS.iter().map(|a| Attr(a.0, None)).collect();
    v.extend(vec![Attr("c/a1", Some("x/al")), Attr("c/am", Some("al")), Wild, Id(None), Id(Some("x/id")), Attr("no/such", None), Attr("e/q", None), Attr("k/name", Some("x/n"))]);
    v
}

fn text(spec: &[&Item]) -> String {
    let s = |a: &Option<&str>| a.map_or(String::new(), |a| format!(" :as :{}", a));
    spec.iter()
        .map(|i| match i {
            Item::Attr(n, a) => format!(":{}{}", n, s(a)),
            Item::Wild => "*".into(),
            Item::Id(a) => format!(":db/id{}", s(a)),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

type Map = BTreeMap<String, Vec<V>>;

/// What the tables say.
struct Truth {
    /// e -> attribute name -> values
    of: BTreeMap<i64, Map>,
    many: BTreeSet<String>,
    ids: BTreeMap<String, i64>,
}

impl Truth {
    fn new(db: &Db) -> Truth {
        let mut ids = BTreeMap::new();
        for (e, _, v) in db.dump().idents {
            if let V::Kw(k) = v {
                ids.insert(k, e);
            }
        }
        let names: BTreeMap<i64, String> = ids.iter().map(|(k, e)| (*e, k.clone())).collect();
        let mut of: BTreeMap<i64, Map> = BTreeMap::new();
        for (e, a, v) in db.datoms().keys() {
            of.entry(*e).or_default().entry(names[a].clone()).or_default().push(v.clone());
        }
        Truth { of, many: ATTRS.iter().filter(|a| a.2).map(|a| a.0.to_string()).collect(), ids }
    }
    /// The map that must be there, and the keys that may be.
    fn pull(&self, e: i64, spec: &[&Item]) -> (Map, Map) {
        let none = Map::new();
        let has = self.of.get(&e).unwrap_or(&none);
        let (mut must, mut may) = (Map::new(), Map::new());
        let explicit: BTreeSet<&str> = spec.iter().filter_map(|i| if let Item::Attr(n, _) = i { Some(*n) } else { None }).collect();
        for i in spec {
            match i {
                Item::Attr(n, a) => {
                    if let Some(v) = has.get(*n) {
                        must.insert(a.unwrap_or(n).to_string(), v.clone());
                    }
                }
                Item::Id(a) => {
                    must.insert(a.unwrap_or("db/id").to_string(), vec![V::Ref(e)]);
                }
                Item::Wild => {
                    for (n, v) in has {
                        if explicit.contains(n.as_str()) { &mut may } else { &mut must }.insert(n.clone(), v.clone());
                    }
                }
            }
        }
        (must, may)
    }
    fn agrees(&self, e: i64, spec: &[&Item], got: &Binding) -> Result<(), String> {
        let (must, may) = self.pull(e, spec);
        let err = |w: &str| Err(format!("{}: got {:?}\nfor entity {} which has {:?}", w, got, e, self.of.get(&e)));
        let m = match got {
            Binding::Map(m) => m,
            _ => return err("not a map"),
        };
        // Shapes: a vector for many values.
        let many_keys: BTreeSet<String> = spec.iter().filter_map(|i| if let Item::Attr(n, a) = i { if self.many.contains(*n) { Some(a.unwrap_or(n).to_string()) } else { None } } else { None }).chain(self.many.iter().cloned()).collect();
        let mut found = Map::new();
        for (k, b) in m.0.iter() {
            let k = k.to_string()[1..].to_string();
            let mut vs = match b {
                Binding::Vec(v) if many_keys.contains(&k) => v.iter().map(val).collect::<Vec<_>>(),
                Binding::Scalar(_) if !many_keys.contains(&k) => vec![val(b)],
                _ => return err("wrong shape"),
            };
            vs.sort();
            found.insert(k, vs);
        }
        for (k, v) in &must {
            let mut v = v.clone();
            v.sort();
            if found.get(k) != Some(&v) {
                return err(&format!("{} should be {:?}", k, v));
            }
        }
        for (k, v) in &found {
            let ok = must.contains_key(k) || may.get(k).map_or(false, |w| {
                let mut w = w.clone();
                w.sort();
                &w == v
            });
            if !ok {
                return err(&format!("{} was not asked for, or the entity does not have it", k));
            }
        }
        Ok(())
    }
}

/// Are the specifications without contradiction (one attribute per key, one :db/id)?
fn sound(spec: &[&Item]) -> bool {
    let mut keys = BTreeSet::new();
    let mut ids = 0;
    for i in spec {
        let k = match i {
            Item::Attr(n, a) => a.unwrap_or(n),
            Item::Id(a) => {
                ids += 1;
                a.unwrap_or("db/id")
            }
            Item::Wild => continue,
        };
        // The same thing twice is fine.
        keys.insert(k);
    }
    ids <= 1
}

type Rows = Vec<Vec<Binding>>;

fn rows(r: QueryResults) -> Rows {
    match r {
        QueryResults::Scalar(None) | QueryResults::Tuple(None) => vec![],
        QueryResults::Scalar(Some(b)) => vec![vec![b]],
        QueryResults::Tuple(Some(t)) => vec![t],
        QueryResults::Coll(c) => c.into_iter().map(|b| vec![b]).collect(),
        QueryResults::Rel(r) => r.rows().map(|r| r.to_vec()).collect(),
    }
}

/// (query with SPEC, shape of a row: n = the entity's name, p = the map, m = a map of its name; entities of the rows)
fn forms(t: &Truth) -> Vec<(String, &'static str, Vec<Vec<i64>>)> {
    let id = |n: &str| t.ids[n];
    let (p, q, r, e_t) = (id("e/p"), id("e/q"), id("e/r"), id("e/t"));
    let named = vec![vec![p, p], vec![q, q], vec![r, r]];
    let refs = |a: &str| -> Vec<(i64, i64)> { t.of.iter().flat_map(|(e, m)| m.get(a).into_iter().flatten().map(move |v| if let V::Ref(x) = v { (*e, *x) } else { panic!() })).collect() };
    let targets: BTreeSet<i64> = refs("c/rm").into_iter().map(|x| x.1).collect();
    vec![
        ("[:find ?n (pull ?e [SPEC]) :where [?e :k/name ?n]]".into(), "np", named.clone()),
        ("[:find [(pull ?e [SPEC]) ...] :where [?e :k/name ?n]]".into(), "p", named.iter().map(|x| vec![x[0]]).collect()),
        ("[:find (pull ?e [SPEC]) . :where [?e :k/name \"p\"]]".into(), "p", vec![vec![p]]),
        ("[:find [?n (pull ?e [SPEC])] :where [?e :k/name ?n] [?e :db/ident :e/q]]".into(), "np", vec![vec![q, q]]),
        ("[:find (pull ?e [SPEC]) (pull ?r [:k/name]) :where [?e :c/r1 ?r]]".into(), "pm", refs("c/r1").into_iter().map(|(e, r)| vec![e, r]).collect()),
        ("[:find (pull ?r [SPEC]) :where [?e :c/rm ?r]]".into(), "p", targets.into_iter().map(|r| vec![r]).collect()),
        ("[:find (pull ?e [SPEC]) ?n :where [?e :k/name ?n] :order (desc ?n) :limit 2]".into(), "pn", vec![vec![r, r], vec![q, q]]),
        ("[:find (pull ?e [SPEC]) :where [?e :db/ident :e/t]]".into(), "p", vec![vec![e_t]]),
        ("[:find (pull ?e [SPEC]) :in ?e :where [?e :k/name _]]".into(), "p", vec![vec![q]]),
    ]
}

fn one(db: &Db, t: &Truth, form: &(String, &'static str, Vec<Vec<i64>>), spec: &[&Item]) -> Result<(), String> {
    let q = form.0.replace("SPEC", &text(spec));
    let inputs = if q.contains(":in ?e") { Some(QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?e"), TypedValue::Ref(t.ids["e/q"]))])) } else { None };
    let got = guard(|| db.conn.q_once(&db.sql, q.as_str(), inputs).map(|o| rows(o.results)).map_err(|e| format!("{}", e))).and_then(|x| x).map_err(|e| format!("{}\nrefused: {}", q, e))?;
    let fail = |w: String| Err(format!("{}\n{}\nall rows: {:?}", q, w, got));
    if got.len() != form.2.len() {
        return fail(format!("{} rows instead of {}", got.len(), form.2.len()));
    }
    // Match each row to one expected row: the rows are told apart by an entity, or tried in turn.
    let name = [Item::Attr("k/name", None)];
    let mut left = form.2.clone();
    for row in &got {
        let fits = |want: &Vec<i64>| -> Result<(), String> {
            for (i, c) in form.1.chars().enumerate() {
                match c {
                    'n' if val(&row[i]) == t.of[&want[i]]["k/name"][0] => (),
                    'n' => return Err(format!("not entity {}", want[i])),
                    'm' => t.agrees(want[i], &[&name[0]], &row[i])?,
                    _ => t.agrees(want[i], spec, &row[i])?,
                }
            }
            Ok(())
        };
        match left.iter().position(|w| fits(w).is_ok()) {
            Some(i) => {
                left.remove(i);
            }
            None => {
                let why = left.iter().map(|w| format!("{:?}: {}", w, fits(w).unwrap_err())).collect::<Vec<_>>().join("\n");
                return fail(format!("a row fits no expected one: {:?}\n{}", row, why));
            }
        }
    }
    if form.0.contains(":order") && got.iter().map(|r| val(&r[1])).ne(form.2.iter().map(|w| t.of[&w[1]]["k/name"][0].clone())) {
        return fail("wrong order".into());
    }
    Ok(())
}

/// The pull API: entity and attribute lists.
fn api<P>(t: &Truth, es: &[i64], attrs: &[&'static str], pull: P) -> Result<(), String>
where
    P: Fn(Vec<i64>, Vec<i64>) -> Result<BTreeMap<i64, Binding>, String>,
{
    let ids: Vec<i64> = attrs.iter().map(|a| t.ids[*a]).collect();
    let spec: Vec<Item> = attrs.iter().map(|a| Item::Attr(a, None)).collect();
    let spec: Vec<&Item> = spec.iter().collect();
    let got = guard(|| pull(es.to_vec(), ids.clone())).and_then(|x| x)?;
    let wanted: BTreeSet<i64> = es.iter().cloned().collect();
    if got.keys().any(|e| !wanted.contains(e)) {
        return Err(format!("entities nobody asked for: {:?}", got));
    }
    for e in wanted {
        let m = got.get(&e).cloned().unwrap_or_else(|| Binding::from(mentat::StructuredMap::default()));
        t.agrees(e, &spec, &m)?;
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let items = items();
    let n = if ctx.thorough { 3 } else { 2 };
    let mut specs: Vec<Vec<usize>> = vec![];
    for len in 1..=n {
        specs.extend(sequences(items.len(), len));
    }
    let specs: Vec<Vec<&Item>> = specs.into_iter().map(|s| s.into_iter().map(|i| &items[i]).collect::<Vec<_>>()).filter(|s| sound(s)).collect();
    let root = std::sync::Mutex::new(schema());
    let names: Vec<&'static str> = ATTRS.iter().map(|a| a.0).chain(vec!["k/name", "db/ident"]).collect();
    let ents = ["e/p", "e/q", "e/r", "e/t", ""];
    ctx.note("specifications", specs.len().to_string());
    ctx.par_with(
        256,
        || root.lock().unwrap().fork(),
        |root, mask| {
            let mut db = database(root, mask);
            let t = Truth::new(&db);
            let forms = forms(&t);
            ctx.state(1);
            for (fi, f) in forms.iter().enumerate() {
                for (si, s) in specs.iter().enumerate() {
                    // Long specifications in the databases that differ most.
                    if s.len() == 3 && ![0b1010_1010, 0b1111_1111, 0b0110_0111].contains(&mask) {
                        continue;
                    }
                    let case = format!("{},q{},{}", mask, fi, si);
                    if !ctx.want(&case) {
                        continue;
                    }
                    ctx.eval(1);
                    ctx.transition(1);
                    ctx.outcome(&(fi, text(s), f.2.iter().map(|w| t.pull(w[0], s).0).collect::<Vec<_>>()));
                    if let Err(e) = one(&db, &t, f, s) {
                        ctx.violation(format!("C13/q/{}/{}", text(s), fi), case, e);
                    }
                }
            }
            if ctx.too_many() {
                return;
            }
            // The API; with the attributes in the store's cache in half of the databases.
            if mask % 2 == 0 {
                for a in &names {
                    let schema = db.conn.current_schema();
                    let _ = db.conn.cache(&mut db.sql, &schema, &kw(a), CacheDirection::Both, CacheAction::Register);
                }
            }
            let id = |e: &str| if e.is_empty() { 1_000_000_007 } else { t.ids[e] };
            let mut lists: Vec<Vec<usize>> = vec![vec![]];
            let mut alists: Vec<Vec<usize>> = vec![vec![], (0..names.len()).collect()];
            for len in 1..=n {
                lists.extend(sequences(ents.len(), len));
            }
            for len in 1..=2 {
                alists.extend(sequences(names.len(), len));
            }
            for way in 0..3 {
                // In a transaction, P and Q change places first.
                let (sql, conn) = (&mut db.sql, &mut db.conn);
                let mut swap = String::from("[");
                for e in &["e/p", "e/q"] {
                    let o = if *e == "e/p" { "e/q" } else { "e/p" };
                    let none = Map::new();
                    let (mine, theirs) = (t.of.get(&t.ids[*e]).unwrap_or(&none), t.of.get(&t.ids[o]).unwrap_or(&none));
                    for a in ATTRS {
                        for v in theirs.get(a.0).into_iter().flatten() {
                            swap += &format!("[:db/add :{} :{} {}]", e, a.0, v.edn());
                        }
                        for v in mine.get(a.0).into_iter().flatten() {
                            if a.2 && !theirs.get(a.0).map_or(false, |t| t.contains(v)) || !a.2 && !theirs.contains_key(a.0) {
                                swap += &format!("[:db/retract :{} :{} {}]", e, a.0, v.edn());
                            }
                        }
                    }
                }
                swap += "]";
                let run = |t: &Truth, pull: &dyn Fn(Vec<i64>, Vec<i64>) -> Result<BTreeMap<i64, Binding>, String>, single: &dyn Fn(i64, Vec<i64>) -> Result<Binding, String>| {
                    for l in &lists {
                        for al in &alists {
                            let case = format!("{},a{},{:?},{:?}", mask, way, l, al).replace(' ', "");
                            if !ctx.want(&case) {
                                continue;
                            }
                            let es: Vec<i64> = l.iter().map(|i| id(ents[*i])).collect();
                            let attrs: Vec<&'static str> = al.iter().map(|i| names[*i]).collect();
                            ctx.eval(1);
                            let mut r = api(t, &es, &attrs, pull);
                            if l.len() == 1 && r.is_ok() {
                                r = api(t, &es, &attrs, |e, a| single(e[0], a).map(|b| std::iter::once((e[0], b)).collect()));
                            }
                            if let Err(e) = r {
                                ctx.violation(format!("C13/api/{}/{:?}", way, attrs), case, format!("pulling {:?} of {:?}, {}: {}", attrs, l.iter().map(|i| ents[*i]).collect::<Vec<_>>(), ["from the store", "in a transaction", "in a read"][way], e));
                            }
                        }
                    }
                };
                let s = |e: &dyn std::fmt::Display| format!("refused: {}", e);
                let maps = |m: BTreeMap<i64, mentat_core::ValueRc<mentat::StructuredMap>>| m.into_iter().map(|(k, v)| (k, Binding::Map(v))).collect();
                match way {
                    0 => run(&t, &|e, a| conn.pull_attributes_for_entities(sql, e, a).map(maps).map_err(|e| s(&e)), &|e, a| conn.pull_attributes_for_entity(sql, e, a).map(Binding::from).map_err(|e| s(&e))),
                    1 => {
                        let mut ip = conn.begin_transaction(sql).unwrap();
                        if let Err(e) = ip.transact(swap.as_str()) {
                            ctx.violation("C13/swap", format!("{},a1", mask), format!("refused: {}: {}", swap, e));
                        }
                        // What was P's is Q's.
                        let mut of = t.of.clone();
                        for a in ATTRS {
                            let (p, q) = (t.ids["e/p"], t.ids["e/q"]);
                            let mut take = |e: i64| of.entry(e).or_default().remove(a.0);
                            let (vp, vq) = (take(p), take(q));
                            vq.map(|v| of.get_mut(&p).unwrap().insert(a.0.to_string(), v));
                            vp.map(|v| of.get_mut(&q).unwrap().insert(a.0.to_string(), v));
                        }
                        let t = Truth { of, many: t.many.clone(), ids: t.ids.clone() };
                        run(&t, &|e, a| ip.pull_attributes_for_entities(e, a).map(maps).map_err(|e| s(&e)), &|e, a| ip.pull_attributes_for_entity(e, a).map(Binding::from).map_err(|e| s(&e)));
                        ctx.transition(1);
                        let _ = ip.rollback();
                    }
                    _ => {
                        let r = conn.begin_read(sql).unwrap();
                        run(&t, &|e, a| r.pull_attributes_for_entities(e, a).map(maps).map_err(|e| s(&e)), &|e, a| r.pull_attributes_for_entity(e, a).map(Binding::from).map_err(|e| s(&e)));
                        let _ = r.q_once("[:find ?x . :where [?x :db/ident :db/ident]]", None);
                    }
                }
                if ctx.too_many() {
                    return;
                }
            }
        },
    );
}
