//! C19: fulltext search finds exactly the current matching values.
use crate::c::c18::{ask, may, must, Row};
use crate::db::*;
use crate::explore::*;
use crate::h::*;
use crate::val::V;
use mentat::{Queryable, TypedValue};
use std::collections::{BTreeMap, BTreeSet};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "breadth-first search over stores, merged on equal facts and equal fulltext tables, with every transaction of an alphabet (assertions, replacements, exchanges, retractions, upserts and lookups by fulltext values, strings shared between attributes and entities, refused and rolled-back transactions); the facts are kept by an independent model; in every state every search term is searched for in every attribute with every form of binding, term, attribute and surrounding clauses, and every value is read, joined, compared and looked up in every way; the oracle tokenizes the model's current strings",
        bounds: "3 fulltext attributes (one, many, unique), 2 entities, 5 strings (mixed case, punctuation, diacritics, empty), 26 transactions, depth 2 (quick) / 3 (thorough); 17 search terms (words, prefixes, phrases, and/or/not), some 300 searches in every state",
        assumptions: vec!["words are maximal runs of letters and digits, compared without case and with diacritics", "a search term that comes from a ground collection may be refused"],
    }
}

const S: [&str; 5] = ["one two", "Two, one-three", "été ONE", "", "it's \"one\" %?1"];
const E: [&str; 2] = ["e/p", "e/q"];
const A: [&str; 3] = ["f/one", "f/many", "f/id"];

#[derive(Clone)]
enum Op {
    /// (add, entity, attribute, string)
    Tx(Vec<(bool, usize, &'static str, usize)>),
    /// Assert a plain string on whatever has this f/id (or on something new).
    Upsert(usize, usize),
    /// [:db/add (lookup-ref :f/id s) :p/str t]
    Lookup(usize, usize),
    /// The first, rolled back.
    Back(Vec<(bool, usize, &'static str, usize)>),
}

fn ops() -> Vec<Op> {
    let t = |v: &[(bool, usize, &'static str, usize)]| Op::Tx(v.to_vec());
    vec![
        t(&[(true, 0, "f/one", 0)]),
        t(&[(true, 0, "f/one", 1)]),
        t(&[(true, 1, "f/one", 0)]),
        t(&[(true, 0, "f/one", 2), (true, 1, "f/one", 1)]),
        t(&[(true, 0, "f/one", 1), (true, 1, "f/one", 0), (true, 1, "f/many", 2)]),
        t(&[(false, 0, "f/one", 0)]),
        t(&[(false, 0, "f/one", 1), (false, 1, "f/one", 0)]),
        t(&[(true, 0, "f/many", 0), (true, 0, "f/many", 1)]),
        t(&[(true, 0, "f/many", 2), (true, 1, "f/many", 0)]),
        t(&[(true, 1, "f/many", 3), (true, 1, "f/many", 4)]),
        t(&[(true, 0, "f/one", 4), (true, 1, "p/str", 4)]),
        t(&[(false, 0, "f/many", 0), (true, 0, "f/many", 3)]),
        t(&[(false, 0, "f/many", 1), (false, 1, "f/many", 0)]),
        t(&[(true, 0, "f/one", 3)]),
        t(&[(true, 0, "p/str", 0), (true, 1, "p/str", 1)]),
        t(&[(true, 1, "p/str", 0), (true, 1, "p/str", 2)]),
        t(&[(true, 0, "f/id", 0)]),
        t(&[(true, 1, "f/id", 0)]),
        t(&[(true, 0, "f/id", 1), (true, 1, "f/id", 2)]),
        t(&[(false, 0, "f/id", 0), (true, 1, "f/id", 0)]),
        Op::Upsert(0, 1),
        Op::Upsert(1, 0),
        Op::Lookup(0, 2),
        Op::Lookup(2, 0),
        Op::Back(vec![(true, 0, "f/one", 2), (true, 1, "f/many", 1), (false, 0, "f/many", 0)]),
        Op::Back(vec![(true, 1, "f/id", 1), (true, 0, "f/many", 4)]),
    ]
}

fn many(a: &str) -> bool {
    a == "f/many" || a == "p/str"
}

impl Op {
    fn text(&self) -> String {
        let q = |i: usize| V::s(S[i]).edn();
        match self {
            Op::Tx(v) | Op::Back(v) => format!("[{}]", v.iter().map(|(add, e, a, s)| format!("[:db/{} :{} :{} {}]", if *add { "add" } else { "retract" }, E[*e], a, q(*s))).collect::<Vec<_>>().join(" ")),
            Op::Upsert(s, t) => format!("[{{:f/id {} :p/str {}}}]", q(*s), q(*t)),
            Op::Lookup(s, t) => format!("[[:db/add (lookup-ref :f/id {}) :p/str {}]]", q(*s), q(*t)),
        }
    }
}

type Fact = (i64, &'static str, &'static str);

struct St19 {
    db: Db,
    facts: BTreeMap<Fact, i64>,
    ids: [i64; 2],
}

impl St for St19 {
    fn fork(&self) -> Self {
        St19 { db: self.db.fork(), facts: self.facts.clone(), ids: self.ids }
    }
    fn limit(&self, few: bool) {
        self.db.limit(few)
    }
}

fn base() -> St19 {
    let mut db = Db::new();
    db.must(
        "[{:db/ident :f/one :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true}
          {:db/ident :f/many :db/valueType :db.type/string :db/cardinality :db.cardinality/many :db/index true :db/fulltext true}
          {:db/ident :f/id :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true :db/unique :db.unique/identity}
          {:db/ident :p/str :db/valueType :db.type/string :db/cardinality :db.cardinality/many}
          {:db/ident :p/term :db/valueType :db.type/string :db/cardinality :db.cardinality/many}
          {:db/ident :e/p} {:db/ident :e/q} {:db/ident :e/terms}]",
    );
    db.must("[[:db/add :e/terms :p/term \"one\"] [:db/add :e/terms :p/term \"thr*\"] [:db/add :e/terms :p/term \"zero\"]]");
    let ids = [db.entid("e/p"), db.entid("e/q")];
    St19 { db, facts: BTreeMap::new(), ids }
}

impl St19 {
    /// What the transaction asserts and retracts according to the model; None if it is to be refused.
    fn model(&self, op: &Op, new: i64) -> Option<(Vec<Fact>, Vec<Fact>)> {
        let mut add: Vec<Fact> = vec![];
        let mut del: Vec<Fact> = vec![];
        let id_of = |s: usize| self.facts.keys().find(|f| f.1 == "f/id" && f.2 == S[s]).map(|f| f.0);
        match op {
            Op::Tx(v) | Op::Back(v) => {
                for (a, e, at, s) in v {
                    let f = (self.ids[*e], *at, S[*s]);
                    if *a {
                        if !many(at) {
                            del.extend(self.facts.keys().filter(|g| g.0 == f.0 && g.1 == f.1 && g.2 != f.2).cloned());
                        }
                        if !self.facts.contains_key(&f) {
                            add.push(f);
                        }
                    } else if self.facts.contains_key(&f) {
                        del.push(f);
                    }
                }
            }
            Op::Upsert(s, t) => {
                let e = match id_of(*s) {
                    Some(e) => e,
                    None => {
                        add.push((new, "f/id", S[*s]));
                        new
                    }
                };
                add.push((e, "p/str", S[*t]));
            }
            Op::Lookup(s, t) => add.push((id_of(*s)?, "p/str", S[*t])),
        }
        add.retain(|f| !self.facts.contains_key(f));
        // Unique values.
        let mut after: BTreeSet<Fact> = self.facts.keys().cloned().collect();
        for f in &del {
            after.remove(f);
        }
        after.extend(add.iter().cloned());
        for s in S.iter() {
            if after.iter().filter(|f| f.1 == "f/id" && f.2 == *s).count() > 1 {
                return None;
            }
        }
        Some((add, del))
    }

    fn step(&mut self, op: &Op) -> Result<bool, String> {
        let new = {
            let parts = mentat_db::db::read_partition_map(&self.db.sql).map_err(|e| e.to_string())?;
            parts[":db.part/user"].next_entid()
        };
        let want = self.model(op, new);
        if let Op::Back(_) = op {
            let (s, c) = (&mut self.db.sql, &mut self.db.conn);
            let t = op.text();
            guard(|| -> Result<(), String> {
                let mut ip = c.begin_transaction(s).map_err(|e| format!("{}", e))?;
                let _ = ip.transact(t.as_str());
                ip.rollback().map_err(|e| format!("{}", e))
            })
            .and_then(|r| r)?;
            return Ok(true);
        }
        match (self.db.transact(&op.text()), want) {
            (Ok(r), Some((add, del))) => {
                for f in del {
                    self.facts.remove(&f);
                }
                for f in add {
                    self.facts.insert(f, r.tx_id);
                }
                Ok(true)
            }
            (Err(_), None) => Ok(false),
            (Ok(_), None) => Err(format!("{} is accepted although it violates uniqueness or looks up nothing", op.text())),
            (Err(e), Some(_)) => Err(format!("{} is refused: {}", op.text(), e)),
        }
    }

    fn key(&self) -> (Vec<Fact>, Vec<(i64, String, Option<i64>)>) {
        let mut st = self.db.sql.prepare_cached("SELECT rowid, text, searchid FROM fulltext_values ORDER BY 1").unwrap();
        let rows = st.query_map(rusqlite::params![], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?))).unwrap().map(|r| r.unwrap()).collect();
        (self.facts.keys().cloned().collect(), rows)
    }
}

#[derive(Clone)]
enum Term {
    W(&'static str),
    Pre(&'static str),
    Phrase(&'static [&'static str]),
    And(&'static str, &'static str),
    Or(&'static str, &'static str),
    But(&'static str, &'static str),
}

fn words(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect()
}

impl Term {
    fn text(&self) -> String {
        match self {
            Term::W(w) => w.to_string(),
            Term::Pre(w) => format!("{}*", w),
            Term::Phrase(ws) => format!("\"{}\"", ws.join(" ")),
            Term::And(a, b) => format!("{} {}", a, b),
            Term::Or(a, b) => format!("{} OR {}", a, b),
            Term::But(a, b) => format!("{} NOT {}", a, b),
        }
    }
    fn edn(&self) -> String {
        V::s(&self.text()).edn()
    }
    fn hits(&self, s: &str) -> bool {
        let ws = words(s);
        let has = |w: &str| ws.contains(&w.to_lowercase());
        match self {
            Term::W(w) => has(w),
            Term::Pre(p) => ws.iter().any(|w| w.starts_with(&p.to_lowercase())),
            Term::Phrase(p) => ws.windows(p.len()).any(|w| w.iter().zip(p.iter()).all(|(a, b)| *a == b.to_lowercase())),
            Term::And(a, b) => has(a) && has(b),
            Term::Or(a, b) => has(a) || has(b),
            Term::But(a, b) => has(a) && !has(b),
        }
    }
}

fn check(ctx: &Ctx, st: &St19, all: bool) -> Result<(), String> {
    ctx.state(1);
    let db = &st.db;
    // The datoms themselves.
    let stored: BTreeMap<(i64, String, V), i64> = db
        .datoms()
        .into_iter()
        .filter_map(|((e, a, v), t)| ["f/one", "f/many", "f/id", "p/str"].iter().find(|n| db.entid(n) == a).map(|n| ((e, n.to_string(), v), t)))
        .collect();
    let modelled: BTreeMap<(i64, String, V), i64> = st.facts.iter().map(|((e, a, s), t)| ((*e, a.to_string(), V::s(s)), *t)).collect();
    if stored != modelled {
        return Err(format!("stored {:?} instead of {:?}", stored, modelled));
    }
    let of = |a: &str| st.facts.iter().filter(|(f, _)| f.1 == a).map(|(f, t)| (f.0, f.2, *t)).collect::<Vec<_>>();
    let terms = vec![
        Term::W("one"), Term::W("TWO"), Term::W("three"), Term::W("été"), Term::W("ÉTÉ"), Term::W("ete"), Term::W("o"), Term::W("zero"), Term::W("it"),
        Term::Pre("tw"), Term::Pre("É"), Term::Phrase(&["one", "two"]), Term::Phrase(&["two", "one", "three"]), Term::And("one", "two"), Term::Or("three", "été"), Term::But("one", "two"), Term::W("1"),
    ];
    let ev = |v: &[(i64, &str, i64)]| v.iter().map(|(e, s, _)| vec![V::Ref(*e), V::s(s)]).collect::<BTreeSet<Row>>();
    let es = |v: &[(i64, &str, i64)]| v.iter().map(|(e, _, _)| vec![V::Ref(*e)]).collect::<BTreeSet<Row>>();
    let none = || vec![];
    for a in A.iter() {
        for t in &terms {
            let hits: Vec<_> = of(a).into_iter().filter(|f| t.hits(f.1)).collect();
            let q = t.edn();
            must(ctx, db, &format!("[:find ?e ?v :where [(fulltext $ :{} {}) [[?e ?v]]]]", a, q), none(), ev(&hits))?;
            must(ctx, db, &format!("[:find ?e :where [(fulltext $ :{} {}) [[?e]]]]", a, q), none(), es(&hits))?;
            must(ctx, db, &format!("[:find ?e ?tx :where [(fulltext $ :{} {}) [[?e _ ?tx]]]]", a, q), none(), hits.iter().map(|(e, _, t)| vec![V::Ref(*e), V::Ref(*t)]).collect())?;
            must(ctx, db, &format!("[:find ?e ?v ?score :where [(fulltext $ :{} {}) [[?e ?v _ ?score]]]]", a, q), none(), hits.iter().map(|(e, s, _)| vec![V::Ref(*e), V::s(s), V::dbl(0.0)]).collect())?;
            must(ctx, db, &format!("[:find ?v :where [?e :{} ?v] [(fulltext $ :{} {}) [[?e]]]]", a, a, q), none(), of(a).iter().filter(|f| hits.iter().any(|h| h.0 == f.0)).map(|f| vec![V::s(f.1)]).collect())?;
            must(ctx, db, &format!("[:find ?e ?v :where [?e :{} ?v] (not [(fulltext $ :{} {}) [[?e ?v]]])]", a, a, q), none(), of(a).iter().filter(|f| !t.hits(f.1)).map(|f| vec![V::Ref(f.0), V::s(f.1)]).collect())?;
        }
        for t in [&terms[0], &terms[9], &terms[12]].iter() {
            let hits: Vec<_> = of(a).into_iter().filter(|f| t.hits(f.1)).collect();
            let q = t.edn();
            let text = TypedValue::from(t.text());
            let s = format!("[(fulltext $ :{} {}) [[?e ?v]]]", a, q);
            // Ways to write the attribute and the term.
            must(ctx, db, &format!("[:find ?e ?v :where [(fulltext $ {} {}) [[?e ?v]]]]", db.entid(a), q), none(), ev(&hits))?;
            must(ctx, db, &format!("[:find ?e ?v :in ?a :where [(fulltext $ ?a {}) [[?e ?v]]]]", q), vec![("?a", TypedValue::Ref(db.entid(a)))], ev(&hits))?;
            must(ctx, db, &format!("[:find ?e ?v :in ?t :where [(fulltext $ :{} ?t) [[?e ?v]]]]", a), vec![("?t", text.clone())], ev(&hits))?;
            must(ctx, db, &format!("[:find ?e ?v :where [(ground {}) ?t] [(fulltext $ :{} ?t) [[?e ?v]]]]", q, a), none(), ev(&hits))?;
            may(ctx, db, &format!("[:find ?e ?v :where [(ground [{} \"zero\"]) [?t ...]] [(fulltext $ :{} ?t) [[?e ?v]]]]", q, a), ev(&hits))?;
            // Bound results.
            for (i, e) in st.ids.iter().enumerate() {
                let mine: Vec<_> = hits.iter().filter(|h| h.0 == *e).cloned().collect();
                must(ctx, db, &format!("[:find ?e ?v :in ?e :where {}]", s), vec![("?e", TypedValue::Ref(*e))], ev(&mine))?;
                must(ctx, db, &format!("[:find ?e ?v :where {} [?e :db/ident :{}]]", s, E[i]), none(), ev(&mine))?;
            }
            for x in S.iter() {
                let same: Vec<_> = hits.iter().filter(|h| h.1 == *x).cloned().collect();
                let lit = V::s(x).edn();
                must(ctx, db, &format!("[:find ?e :in ?v :where {}]", s), vec![("?v", TypedValue::from(*x))], es(&same))?;
                must(ctx, db, &format!("[:find ?e ?v :where {} [(ground {}) ?v]]", s, lit), none(), ev(&same))?;
                must(ctx, db, &format!("[:find ?e ?v :where [(ground {}) ?v] {}]", lit, s), none(), ev(&same))?;
                must(ctx, db, &format!("[:find ?e :where {} [?e :{} {}]]", s, a, lit), none(), of(a).iter().filter(|f| f.1 == *x && hits.iter().any(|h| h.0 == f.0)).map(|f| vec![V::Ref(f.0)]).collect())?;
            }
            for x in S.iter() {
                let same: Vec<_> = hits.iter().filter(|h| h.1 == *x).cloned().collect();
                let lit = V::s(x).edn();
                for b in A.iter().cloned().chain(vec!["p/str"]) {
                    let shared: BTreeSet<Row> = same.iter().flat_map(|h| of(b).into_iter().filter(|o| o.1 == *x).map(|o| vec![V::Ref(h.0), V::Ref(o.0)]).collect::<Vec<_>>()).collect();
                    must(ctx, db, &format!("[:find ?e ?f :where {} [?f :{} ?v] [(ground {}) ?v]]", s, b, lit), none(), shared.clone())?;
                    must(ctx, db, &format!("[:find ?e ?f :where [(ground {}) ?v] [?f :{} ?v] {}]", lit, b, s), none(), shared)?;
                }
            }
            // With other clauses.
            for b in A.iter().cloned().chain(vec!["p/str"]) {
                let other = of(b);
                let shared: BTreeSet<Row> = hits.iter().flat_map(|h| other.iter().filter(move |o| o.1 == h.1).map(move |o| vec![V::Ref(h.0), V::s(h.1), V::Ref(o.0)])).collect();
                must(ctx, db, &format!("[:find ?e ?v ?f :where {} [?f :{} ?v]]", s, b), none(), shared.clone())?;
                must(ctx, db, &format!("[:find ?e ?v ?f :where [?f :{} ?v] {}]", b, s), none(), shared)?;
                must(ctx, db, &format!("[:find ?e ?v ?w :where {} [?e :{} ?w]]", s, b), none(), hits.iter().flat_map(|h| other.iter().filter(move |o| o.0 == h.0).map(move |o| vec![V::Ref(h.0), V::s(h.1), V::s(o.1)])).collect())?;
                must(ctx, db, &format!("[:find ?e ?v :where {} (not [_ :{} ?v])]", s, b), none(), hits.iter().filter(|h| !other.iter().any(|o| o.1 == h.1)).map(|h| vec![V::Ref(h.0), V::s(h.1)]).collect())?;
                must(ctx, db, &format!("[:find ?f ?w :where [?f :{} ?w] (not-join [?w] [(fulltext $ :{} {}) [[_ ?w]]])]", b, a, q), none(), other.iter().filter(|o| !hits.iter().any(|h| h.1 == o.1)).map(|o| vec![V::Ref(o.0), V::s(o.1)]).collect())?;
                if b != "p/str" {
                    for u in [&terms[1], &terms[2]].iter() {
                        let with: Vec<_> = other.iter().filter(|o| u.hits(o.1)).cloned().collect();
                        let s2 = |e: &str, v: &str| format!("[(fulltext $ :{} {}) [[{} {}]]]", b, u.edn(), e, v);
                        must(ctx, db, &format!("[:find ?e ?v ?f :where {} {}]", s, s2("?f", "?v")), none(), hits.iter().flat_map(|h| with.iter().filter(move |o| o.1 == h.1).map(move |o| vec![V::Ref(h.0), V::s(h.1), V::Ref(o.0)])).collect())?;
                        must(ctx, db, &format!("[:find ?e ?v ?w :where {} {}]", s, s2("?e", "?w")), none(), hits.iter().flat_map(|h| with.iter().filter(move |o| o.0 == h.0).map(move |o| vec![V::Ref(h.0), V::s(h.1), V::s(o.1)])).collect())?;
                        let mut both = ev(&hits);
                        both.extend(ev(&with));
                        must(ctx, db, &format!("[:find ?e ?v :where (or {} {})]", s, s2("?e", "?v")), none(), both)?;
                        let mut e1 = es(&hits);
                        e1.extend(es(&with));
                        must(ctx, db, &format!("[:find ?e :where (or-join [?e] {} {})]", s, s2("?e", "?w")), none(), e1)?;
                        let mut mixed = ev(&hits);
                        mixed.extend(ev(&of("p/str")));
                        must(ctx, db, &format!("[:find ?e ?v :where (or {} [?e :p/str ?v])]", s), none(), mixed)?;
                    }
                }
            }
            must(ctx, db, &format!("[:find ?e ?v ?i :where [(fulltext $ :{} {}) [[?e ?v ?tx]]] [?tx :db/txInstant ?i]]", a, q), none(), {
                let inst: BTreeMap<i64, V> = db.datoms().into_iter().filter(|(d, _)| d.1 == 3).map(|(d, _)| (d.0, d.2)).collect();
                hits.iter().map(|h| vec![V::Ref(h.0), V::s(h.1), inst[&h.2].clone()]).collect()
            })?;
            let n = hits.len() as i64;
            must(ctx, db, &format!("[:find (count ?e) :with ?v :where {}]", s), none(), if n > 0 { vec![vec![V::Long(n)]].into_iter().collect() } else { ask(db, &format!("[:find (count ?e) :with ?v :where {}]", s), none())?? })?;
        }
        // Terms taken from the data.
        let data = [Term::W("one"), Term::Pre("thr"), Term::W("zero")];
        let want: BTreeSet<Row> = of(a).iter().flat_map(|f| data.iter().filter(move |t| t.hits(f.1)).map(move |t| vec![V::Ref(f.0), V::s(f.1), V::s(&t.text())])).collect();
        must(ctx, db, &format!("[:find ?e ?v ?t :where [_ :p/term ?t] [(fulltext $ :{} ?t) [[?e ?v]]]]", a), none(), want)?;
        must(ctx, db, &format!("[:find ?e ?v :where [_ :p/term ?t] [(ground \"one\") ?t] [(fulltext $ :{} ?t) [[?e ?v]]]]", a), none(), ev(&of(a).into_iter().filter(|f| Term::W("one").hits(f.1)).collect::<Vec<_>>()))?;
        may(ctx, db, &format!("[:find ?e ?v :where [_ :p/term ?t] [(fulltext $ :{} ?t) [[?e ?v]]] [(ground \"one\") ?t]]", a), ev(&of(a).into_iter().filter(|f| Term::W("one").hits(f.1)).collect::<Vec<_>>()))?;
        // Values of the attribute, as ordinary strings.
        let facts = of(a);
        must(ctx, db, &format!("[:find ?e ?v :where [?e :{} ?v]]", a), none(), ev(&facts))?;
        must(ctx, db, &format!("[:find ?e ?v :where [?e ?a ?v] [?a :db/ident :{}]]", a), none(), ev(&facts))?;
        must(ctx, db, &format!("[:find ?e ?v ?a :where [?e ?a ?v] [?e :{} ?v]]", a), none(), facts.iter().flat_map(|f| st.facts.keys().filter(move |g| g.0 == f.0 && g.2 == f.1).map(move |g| vec![V::Ref(f.0), V::s(f.1), V::Ref(db.entid(g.1))])).collect())?;
        for s in S.iter() {
            let lit = V::s(s).edn();
            let same: Vec<_> = facts.iter().filter(|f| f.1 == *s).cloned().collect();
            must(ctx, db, &format!("[:find ?e :where [?e :{} {}]]", a, lit), none(), es(&same))?;
            must(ctx, db, &format!("[:find ?e ?v :where [?e :{} ?v] (not [?e :{} {}])]", a, a, lit), none(), facts.iter().filter(|f| !same.iter().any(|s| s.0 == f.0)).map(|f| vec![V::Ref(f.0), V::s(f.1)]).collect())?;
            must(ctx, db, &format!("[:find ?e :in ?v :where [?e :{} ?v]]", a), vec![("?v", TypedValue::from(*s))], es(&same))?;
            must(ctx, db, &format!("[:find ?e :where [?e :{} ?v] [(ground [{} \"zero\"]) [?v ...]]]", a, lit), none(), es(&same))?;
        }
        for e in &st.ids {
            let mine: BTreeSet<V> = facts.iter().filter(|f| f.0 == *e).map(|f| V::s(f.1)).collect();
            let k = crate::val::kw(a);
            ctx.eval(2);
            let got: Vec<V> = guard(|| db.conn.lookup_values_for_attribute(&db.sql, *e, &k).map_err(|e| e.to_string())).and_then(|r| r)?.iter().map(V::from_typed).collect();
            if got.iter().cloned().collect::<BTreeSet<_>>() != mine || got.len() != mine.len() {
                return Err(format!("lookup_values({}, {}) gives {:?} instead of {:?}", e, a, got, mine));
            }
            let got = guard(|| db.conn.lookup_value_for_attribute(&db.sql, *e, &k).map_err(|e| e.to_string())).and_then(|r| r)?;
            if got.as_ref().map_or(!mine.is_empty(), |g| !mine.contains(&V::from_typed(g))) {
                return Err(format!("lookup_value({}, {}) gives {:?} instead of one of {:?}", e, a, got, mine));
            }
        }
    }
    for s in S.iter() {
        let lit = V::s(s).edn();
        must(ctx, db, &format!("[:find ?e ?a :where [?e ?a {}]]", lit), none(), st.facts.keys().filter(|f| f.2 == *s).map(|f| vec![V::Ref(f.0), V::Ref(db.entid(f.1))]).collect())?;
        // (Attributes of terms and documentation have none of these strings.)
        must(ctx, db, "[:find ?e ?a :in ?v :where [?e ?a ?v]]", vec![("?v", TypedValue::from(*s))], st.facts.keys().filter(|f| f.2 == *s).map(|f| vec![V::Ref(f.0), V::Ref(db.entid(f.1))]).collect())?;
    }
    // Text that isn't a search term is refused or finds nothing, and breaks nothing.
    for t in ["", " ", "\"one", "*", "AND", "one NEAR/", "(one", "-", "^"].iter() {
        ctx.eval(1);
        let _ = ask(db, &format!("[:find ?e ?v :where [(fulltext $ :f/one {}) [[?e ?v]]]]", V::s(t).edn()), none())?;
    }
    if all {
        let r = db.try_fork()?;
        must(ctx, &r, "[:find ?e ?v :where [(fulltext $ :f/many \"one\") [[?e ?v]]]]", none(), ev(&of("f/many").into_iter().filter(|f| Term::W("one").hits(f.1)).collect::<Vec<_>>()))?;
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let ops = ops();
    let b = base();
    if ctx.want("base") {
        if let Err(e) = check(ctx, &b, true) {
            ctx.violation("C19/base", "base", e);
        }
    }
    let name = |o: usize| {
        let t = ops[o].text();
        match ops[o] {
            Op::Back(_) => format!("{} rolled back", t),
            _ => t,
        }
    };
    let s = Search { name: "fts", nops: ops.len(), depth: if ctx.thorough { 3 } else { 2 }, op_name: &name };
    explore(
        ctx,
        &s,
        &b,
        b.key(),
        |st, o| {
            st.step(&ops[o]).expect("redo");
        },
        |st, o| {
            let before = st.key();
            st.step(&ops[o])?;
            let k = st.key();
            check(ctx, st, o % 4 == 0)?;
            Ok(if k == before { None } else { Some(k) })
        },
    );
}
