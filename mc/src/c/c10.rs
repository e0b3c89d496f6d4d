//! C10: queries against a naive evaluator.
use crate::db::*;
use crate::dl::*;
use crate::h::*;
use crate::val::V;
use mentat::{Binding, QueryResults};
use std::collections::BTreeSet;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every sequence of where clauses from an alphabet covering every clause kind, run through Store queries on the real code over databases whose values collide across types, compared with a naive evaluator (sets of variable bindings by nested loops over the datoms) that knows nothing of SQL, type inference or clause order; refusals are compared with the rules of the language (unbound variables, undetermined comparison types, mismatched or-variables)",
        bounds: "about 165 clauses over 6 variables; quick: all single clauses and ordered pairs (with all variables and each one alone in :find), and all triples whose first two clauses are from the 36 of a reduced alphabet; thorough: all ordered triples of the whole alphabet; 2 databases; 7 queries about equal longs and doubles",
        assumptions: vec!["an integer or keyword literal whose type nothing in the query fixes may be read in either way"],
    }
}

pub fn vocabulary() -> &'static str {
    "[{:db/ident :t/l :db/valueType :db.type/long :db/cardinality :db.cardinality/one}
      {:db/ident :t/m :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/index true}
      {:db/ident :t/lm :db/valueType :db.type/long :db/cardinality :db.cardinality/many}
      {:db/ident :t/d :db/valueType :db.type/double :db/cardinality :db.cardinality/one}
      {:db/ident :t/b :db/valueType :db.type/boolean :db/cardinality :db.cardinality/one}
      {:db/ident :t/r :db/valueType :db.type/ref :db/cardinality :db.cardinality/one}
      {:db/ident :t/rm :db/valueType :db.type/ref :db/cardinality :db.cardinality/many}
      {:db/ident :t/s :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/unique :db.unique/identity}
      {:db/ident :t/k :db/valueType :db.type/keyword :db/cardinality :db.cardinality/one}
      {:db/ident :t/i :db/valueType :db.type/instant :db/cardinality :db.cardinality/one}
      {:db/ident :t/u :db/valueType :db.type/uuid :db/cardinality :db.cardinality/one}
      {:db/ident :t/f :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/fulltext true :db/index true}]"
}

/// The entities of the first database, by number: their ids are the same in both.
pub struct Ids {
    pub a: i64,
    pub b: i64,
    pub c: i64,
    pub tx: i64,
}

/// Two databases: one in which values of different types collide in every way, one sparse.
pub fn databases() -> (Vec<Db>, Ids) {
    let mut d = Db::new();
    d.must(vocabulary());
    let r = d.must("[[:db/add \"a\" :t/l 1] [:db/add \"b\" :t/l 2] [:db/add \"c\" :t/b true]]");
    let id = |n: &str| r.tempids[n];
    let ids = Ids { a: id("a"), b: id("b"), c: id("c"), tx: r.tx_id };
    let sparse = d.fork();
    let (a, b, c) = (ids.a, ids.b, ids.c);
    d.must(&format!(
        "[[:db/add {a} :t/lm 1] [:db/add {a} :t/lm 2] [:db/add {a} :t/m 1] [:db/add {a} :t/d 1.5] [:db/add {a} :t/b true] [:db/add {a} :t/r {b}] [:db/add {a} :t/s \"x\"] [:db/add {a} :t/k :t/l]
          [:db/add {a} :t/i #inst \"1970-01-01T00:00:00.000001Z\"] [:db/add {a} :t/u #uuid \"00000000-0000-0000-0000-000000000001\"] [:db/add {a} :t/f \"x y\"]]",
        a = a, b = b
    ));
    d.must(&format!(
        "[[:db/add {b} :t/lm 1] [:db/add {b} :t/lm {a}] [:db/add {b} :t/m 3] [:db/add {b} :t/d 2.5] [:db/add {b} :t/b false] [:db/add {b} :t/r {a}] [:db/add {b} :t/s \":t/l\"]
          [:db/add {b} :t/i #inst \"1970-01-01T00:00:00.000002Z\"] [:db/add {b} :t/f \"x\"] [:db/add {b} :t/rm {a}] [:db/add {b} :t/rm :t/l]]",
        a = a, b = b
    ));
    d.must(&format!(
        "[[:db/add {c} :t/rm {a}] [:db/add {c} :t/rm {b}] [:db/add {c} :t/rm {c}] [:db/add {c} :t/s \"1\"] [:db/add {c} :t/k :t/zz] [:db/add {c} :t/m 1] [:db/add {c} :t/r {c}] [:db/add {c} :t/lm {c}] [:db/add {c} :t/d -0.5]]",
        a = a, b = b, c = c
    ));
    (vec![d, sparse], ids)
}

pub const X: usize = 0;
pub const Y: usize = 1;
pub const Z: usize = 2;
pub const A: usize = 3;
pub const TX: usize = 4;
pub const W: usize = 5;

pub fn v(i: usize) -> T {
    T::Var(i)
}
pub fn id(k: &str) -> T {
    T::Id(k.into())
}
pub fn s(x: &str) -> T {
    T::C(V::s(x))
}
pub fn pat(e: T, a: T, v: T) -> Cl {
    Cl::Pat(e, a, v, T::Blank)
}
/// [?x :t/attr ?y]
pub fn xy(a: &str) -> Cl {
    pat(v(X), id(a), v(Y))
}
fn is(a: &str, val: T) -> Cl {
    pat(v(X), id(a), val)
}

/// The alphabet: (clause, whether it is in the reduced one).
pub fn alphabet(ids: &Ids) -> Vec<(Cl, bool)> {
    let b = |x| T::C(V::Bool(x));
    let d = |x| T::C(V::dbl(x));
    let i = |x| T::C(V::Inst(x));
    let n = |x| T::Int(x);
    let mut out = vec![];
    {
        let mut core = |c: Cl| out.push((c, true));
        core(xy("t/l"));
        core(xy("t/lm"));
        core(xy("t/b"));
        core(xy("t/r"));
        core(xy("t/s"));
        core(xy("t/f"));
        core(pat(v(X), v(A), v(Y)));
        core(pat(v(Z), v(A), v(Y)));
        core(pat(v(X), T::Blank, v(Y)));
        core(pat(v(Y), id("t/r"), v(Z)));
        core(pat(v(Z), id("t/lm"), v(Y)));
        core(is("t/l", n(1)));
        core(pat(v(X), v(A), b(true)));
        core(Cl::Pat(v(X), id("t/lm"), v(Y), v(TX)));
        core(Cl::Pat(v(Z), T::Blank, T::Blank, v(TX)));
        core(is("t/nope", v(Y)));
        core(Cl::Or(vec![vec![is("t/l", n(1))], vec![is("t/l", n(2))]]));
        core(Cl::Or(vec![vec![xy("t/l")], vec![xy("t/b")]]));
        core(Cl::Or(vec![vec![xy("t/lm")], vec![xy("t/s")]]));
        core(Cl::Or(vec![vec![xy("t/m")], vec![xy("t/r"), pat(v(Y), id("t/b"), b(false))]]));
        core(Cl::OrJoin(vec![X], vec![vec![xy("t/m")], vec![xy("t/rm")]]));
        core(Cl::OrJoin(vec![X, Y], vec![vec![pat(v(X), id("t/r"), v(Z)), pat(v(Z), id("t/l"), v(Y))], vec![xy("t/d")]]));
        core(Cl::Not(vec![is("t/l", n(1))]));
        core(Cl::Not(vec![xy("t/lm")]));
        core(Cl::Not(vec![pat(v(X), T::Blank, v(Y))]));
        core(Cl::NotJoin(vec![X], vec![xy("t/m"), xy("t/lm")]));
        core(Cl::NotJoin(vec![Y], vec![pat(v(X), id("t/m"), v(Y))]));
        core(Cl::Cmp("<", v(Y), n(2)));
        core(Cl::Cmp("!=", v(Y), v(Z)));
        core(Cl::Type(Y, "long"));
        core(Cl::Type(Y, "ref"));
        core(Cl::Scalar(Y, n(1)));
        core(Cl::Scalar(Y, b(true)));
        core(Cl::Scalar(A, id("t/b")));
        core(Cl::Coll(Y, vec![n(1), n(2)]));
        core(Cl::Coll(A, vec![id("t/l"), id("t/rm")]));
    }
    let mut more = |c: Cl| out.push((c, false));
    more(xy("t/m"));
    more(xy("t/d"));
    more(xy("t/rm"));
    more(xy("t/k"));
    more(xy("t/i"));
    more(xy("t/u"));
    more(pat(v(X), id("t/l"), v(Z)));
    more(pat(v(X), id("t/f"), v(Z)));
    more(pat(v(Y), id("t/rm"), v(X)));
    more(pat(v(X), id("t/r"), v(X)));
    more(pat(T::Blank, id("t/lm"), v(Y)));
    more(pat(v(X), v(Y), v(Z)));
    more(pat(v(X), v(A), T::Blank));
    more(pat(v(Y), v(A), v(Z)));
    more(pat(v(Z), v(A), v(W)));
    more(is("t/l", T::Blank));
    more(is("t/d", d(1.5)));
    more(is("t/d", n(1)));
    more(is("t/b", b(true)));
    more(is("t/b", b(false)));
    more(is("t/s", s("x")));
    more(is("t/s", s("1")));
    more(is("t/f", s("x")));
    more(is("t/f", T::Blank));
    more(is("t/k", id("t/l")));
    more(is("t/rm", id("t/l")));
    more(is("t/rm", id("t/zz")));
    more(is("t/r", n(ids.a)));
    more(is("t/lm", n(ids.a)));
    more(is("t/i", i(1)));
    more(is("t/l", s("x")));
    more(pat(v(X), v(A), n(1)));
    more(pat(v(X), v(A), n(ids.a)));
    more(pat(v(X), v(A), s("x")));
    more(pat(v(X), v(A), s(":t/l")));
    more(pat(v(X), v(A), id("t/l")));
    more(pat(v(X), v(A), d(2.5)));
    more(pat(v(X), v(A), d(ids.b as f64)));
    more(pat(v(X), T::Blank, i(1)));
    more(pat(v(X), T::Blank, b(false)));
    more(pat(n(ids.a), id("t/lm"), v(Y)));
    more(pat(n(ids.a), v(A), v(Y)));
    more(pat(n(ids.b), id("t/f"), v(Y)));
    more(pat(id("t/l"), v(A), v(Y)));
    more(pat(id("t/l"), id("db/cardinality"), v(Y)));
    more(pat(id("t/zz"), v(A), v(Y)));
    more(pat(v(Y), id("db/ident"), v(Z)));
    more(pat(v(A), id("db/ident"), v(Z)));
    more(pat(v(TX), id("db/txInstant"), v(Z)));
    more(Cl::Pat(v(X), T::Blank, v(Y), n(ids.tx)));
    more(Cl::Pat(v(X), id("t/f"), v(Y), v(TX)));
    more(Cl::Pat(v(Z), id("t/l"), T::Blank, v(TX)));
    more(Cl::Or(vec![vec![is("t/b", b(true))], vec![is("t/l", n(2))]]));
    more(Cl::Or(vec![vec![is("t/s", s("x"))], vec![is("t/f", s("x"))]]));
    more(Cl::Or(vec![vec![is("t/nope", n(1))], vec![is("t/m", n(1))]]));
    more(Cl::Or(vec![vec![is("t/nope", v(Y))], vec![xy("t/lm")], vec![xy("t/m")]]));
    more(Cl::Or(vec![vec![xy("t/f")], vec![xy("t/s")]]));
    more(Cl::Or(vec![vec![xy("t/r")], vec![pat(v(Y), id("t/r"), v(X))]]));
    more(Cl::Or(vec![vec![xy("t/l"), Cl::Cmp(">", v(Y), n(1))], vec![xy("t/d")]]));
    more(Cl::Or(vec![vec![xy("t/r"), Cl::Not(vec![pat(v(Y), id("t/b"), b(true))])], vec![xy("t/l")]]));
    more(Cl::Or(vec![vec![xy("t/lm")], vec![xy("t/lm"), Cl::Or(vec![vec![xy("t/l")], vec![xy("t/m")]])]]));
    more(Cl::Or(vec![vec![pat(v(X), v(A), n(2))], vec![pat(v(X), v(A), b(false))]]));
    more(Cl::Or(vec![vec![is("t/lm", n(1))]]));
    more(Cl::Or(vec![vec![xy("t/l")], vec![pat(v(X), id("t/l"), v(Z))]]));
    more(Cl::Or(vec![vec![Cl::Scalar(Y, n(1)), is("t/l", v(Y))], vec![xy("t/b")]]));
    more(Cl::Or(vec![vec![Cl::Cmp("<", v(Y), n(2)), xy("t/l")], vec![xy("t/m")]]));
    more(Cl::Or(vec![vec![pat(v(X), id("t/r"), v(X))], vec![pat(T::Blank, id("t/r"), v(X))]]));
    more(Cl::Or(vec![vec![is("t/rm", v(X))], vec![is("t/rm", T::Blank)]]));
    more(Cl::Or(vec![vec![Cl::Pat(v(X), id("t/lm"), v(TX), v(TX))], vec![Cl::Pat(v(X), id("t/lm"), T::Blank, v(TX))]]));
    more(Cl::Or(vec![vec![Cl::Pat(v(X), id("t/r"), T::Blank, v(X))], vec![is("t/r", T::Blank)]]));
    more(Cl::Or(vec![vec![is("t/l", n(1))], vec![is("t/lm", n(2))], vec![is("t/f", s("x"))]]));
    more(Cl::Or(vec![vec![xy("t/m")], vec![xy("t/s")], vec![xy("t/lm")]]));
    more(Cl::Or(vec![vec![xy("t/s")], vec![xy("t/k")], vec![xy("t/lm")], vec![xy("t/f")]]));
    more(Cl::OrJoin(vec![X], vec![vec![is("t/l", n(2))], vec![pat(v(X), id("t/r"), v(Z)), pat(v(Z), id("t/b"), b(true))]]));
    more(Cl::OrJoin(vec![Y], vec![vec![xy("t/lm")], vec![xy("t/b"), pat(v(X), id("t/l"), v(Z))]]));
    more(Cl::OrJoin(vec![X], vec![vec![xy("t/s")]]));
    more(Cl::OrJoin(vec![X, Y], vec![vec![xy("t/lm")], vec![xy("t/m")]]));
    more(Cl::OrJoin(vec![X, Y], vec![vec![is("t/l", n(1))], vec![xy("t/m")]]));
    more(Cl::Not(vec![is("t/b", T::Blank)]));
    more(Cl::Not(vec![xy("t/m")]));
    more(Cl::Not(vec![xy("t/s")]));
    more(Cl::Not(vec![xy("t/nope")]));
    more(Cl::Not(vec![is("t/l", s("x"))]));
    more(Cl::Not(vec![pat(v(Y), id("t/b"), b(true))]));
    more(Cl::Not(vec![is("t/l", n(1)), is("t/b", b(true))]));
    more(Cl::Not(vec![Cl::Not(vec![is("t/l", n(1))])]));
    more(Cl::Not(vec![Cl::Or(vec![vec![xy("t/l")], vec![xy("t/lm")]])]));
    more(Cl::Not(vec![Cl::Cmp(">", v(Y), n(1)), xy("t/l")]));
    more(Cl::Not(vec![xy("t/lm"), Cl::Cmp(">", v(Y), n(1))]));
    more(Cl::Not(vec![pat(v(X), v(A), n(1))]));
    more(Cl::Not(vec![Cl::Type(Y, "long"), pat(v(X), T::Blank, v(Y))]));
    more(Cl::NotJoin(vec![X], vec![pat(v(X), id("t/r"), v(Z)), pat(v(Z), id("t/b"), b(true))]));
    more(Cl::NotJoin(vec![X, Y], vec![xy("t/lm"), pat(v(X), id("t/m"), v(Z)), Cl::Cmp("<", v(Y), v(Z))]));
    more(Cl::NotJoin(vec![X], vec![xy("t/lm"), Cl::Cmp(">", v(Y), n(1))]));
    more(Cl::NotJoin(vec![X], vec![Cl::Or(vec![vec![is("t/m", n(1))], vec![is("t/l", n(2))]])]));
    more(Cl::NotJoin(vec![X], vec![xy("t/m"), Cl::Not(vec![xy("t/lm")])]));
    more(Cl::NotJoin(vec![Y], vec![is("t/l", n(1))]));
    more(Cl::Cmp(">=", v(Y), n(1)));
    more(Cl::Cmp("<=", v(Y), d(1.0)));
    more(Cl::Cmp(">", n(2), v(Y)));
    more(Cl::Cmp("!=", v(Y), n(1)));
    more(Cl::Cmp("<", v(Y), v(Z)));
    more(Cl::Cmp(">", v(Y), i(1)));
    more(Cl::Cmp("<", v(Y), s("y")));
    more(Cl::Cmp("unpermute", v(X), v(Y)));
    more(Cl::Cmp("differ", v(X), v(Z)));
    more(Cl::Cmp("tx-after", v(TX), n(ids.tx)));
    more(Cl::Cmp("tx-before", v(TX), n(ids.tx + 1)));
    more(Cl::Type(Y, "boolean"));
    more(Cl::Type(Y, "string"));
    more(Cl::Type(Y, "double"));
    more(Cl::Type(X, "ref"));
    more(Cl::Type(Y, "keyword"));
    more(Cl::Scalar(X, n(ids.a)));
    more(Cl::Scalar(Y, s("x")));
    more(Cl::Scalar(Y, d(1.5)));
    more(Cl::Scalar(Y, id("t/l")));
    more(Cl::Scalar(Y, i(1)));
    more(Cl::Scalar(A, id("t/nope")));
    more(Cl::Scalar(Z, n(1)));
    more(Cl::Coll(Y, vec![s("x"), s("1")]));
    more(Cl::Coll(X, vec![n(ids.a), n(ids.c)]));
    more(Cl::Coll(Y, vec![b(true), b(false)]));
    more(Cl::Coll(Y, vec![n(1), s("x")]));
    more(Cl::Tuple(vec![Some(Y), Some(Z)], vec![n(1), s("x")]));
    more(Cl::Tuple(vec![Some(X), None], vec![n(ids.b), n(1)]));
    more(Cl::Rel(vec![Some(Y), Some(Z)], vec![vec![n(1), n(2)], vec![n(2), n(1)], vec![n(1), n(1)]]));
    more(Cl::Rel(vec![Some(Y), None, Some(Z)], vec![vec![n(1), s("q"), s("x")], vec![n(2), n(3), s("1")]]));
    more(Cl::Rel(vec![Some(Y), Some(Z)], vec![vec![n(1), n(2)], vec![s("x"), n(3)], vec![n(2), n(1)]]));
    more(Cl::Rel(vec![Some(X), Some(Y)], vec![vec![n(ids.a), n(2)], vec![n(ids.b), s("x")], vec![n(ids.b), n(1)]]));
    out
}

/// The answers of the real store, as sets of values; None for a refusal.
pub fn real(db: &Db, text: &str) -> Result<Result<Vec<Vec<V>>, String>, String> {
    guard(|| match db.conn.q_once(&db.sql, text, None) {
        Err(e) => Ok(Err(e.to_string())),
        Ok(o) => match o.results {
            QueryResults::Rel(r) => Ok(Ok(r.rows().map(|r| r.iter().map(val).collect()).collect())),
            x => Err(format!("not a relation: {:?}", x)),
        },
    })
    .and_then(|r| r)
}

pub fn val(b: &Binding) -> V {
    match b {
        Binding::Scalar(v) => V::from_typed(v),
        x => V::Bad(format!("{:?}", x)),
    }
}

pub struct Bench {
    pub dbs: Vec<(Db, World)>,
}

impl Bench {
    pub fn new(al: &[(Cl, bool)]) -> Bench {
        let (dbs, _) = databases();
        Bench {
            dbs: dbs
                .into_iter()
                .map(|d| {
                    let mut w = World::of(&d);
                    al.iter().for_each(|c| w.learn(&c.0));
                    (d, w)
                })
                .collect(),
        }
    }
}

/// SQLite 3.33 takes the partial unique index on (a, value_type_tag, v) to mean that a single pattern with
/// a constant value finds each attribute but once, and skips the DISTINCT.
pub fn sqlite_distinct(cls: &[Cl], find: &[usize]) -> bool {
    let mut ground = vec![];
    for c in cls {
        match c {
            Cl::Scalar(v, _) => ground.push(*v),
            Cl::Tuple(p, _) => ground.extend(p.iter().flatten()),
            Cl::Coll(v, l) if l.len() == 1 => ground.push(*v),
            _ => {}
        }
    }
    let pats: Vec<&Cl> = cls.iter().filter(|c| matches!(c, Cl::Pat(..) | Cl::Or(_) | Cl::OrJoin(..) | Cl::Rel(..))).collect();
    match pats[..] {
        [Cl::Pat(_, T::Var(a), v, _)] => {
            let fixed = match v {
                T::Var(v) => ground.contains(v),
                T::Blank => false,
                _ => true,
            };
            fixed && find.iter().all(|f| f == a || ground.contains(f))
        }
        _ => false,
    }
}

/// The variables that stand for a ground keyword: whether they come out as that or as the entity it names
/// is open.
pub fn keyword_vars(cls: &[Cl], out: &mut BTreeSet<usize>) {
    let kw = |t: &T| matches!(t, T::Id(_));
    for c in cls {
        match c {
            Cl::Scalar(v, t) if kw(t) => {
                out.insert(*v);
            }
            Cl::Coll(v, l) if l.iter().any(kw) => {
                out.insert(*v);
            }
            Cl::Tuple(p, l) => out.extend(p.iter().zip(l).filter(|x| kw(x.1)).filter_map(|x| *x.0)),
            Cl::Rel(p, l) => l.iter().for_each(|l| out.extend(p.iter().zip(l).filter(|x| kw(x.1)).filter_map(|x| *x.0))),
            Cl::Or(a) | Cl::OrJoin(_, a) => a.iter().for_each(|c| keyword_vars(c, out)),
            _ => {}
        }
    }
}

/// One query on one database: None if all is well.
fn judge(ctx: &Ctx, b: &(Db, World), cls: &[Cl], find: &[usize]) -> Option<(String, String)> {
    let (db, w) = b;
    let text = format!("[:find {} :where {}]", vars_text(find), all_text(cls));
    if std::env::var("MC_EXPLAIN").is_ok() {
        if let Ok(mentat::QueryExplanation::ExecutionPlan { query, steps }) = db.conn.q_explain(&db.sql, &text, None) {
            eprintln!("{}\n{}", text, query.sql);
            steps.iter().for_each(|s| eprintln!("   {}", s.detail));
        }
    }
    let got = match real(db, &text) {
        Err(p) => return Some(("panic".into(), format!("{}: {}", text, p))),
        Ok(g) => g,
    };
    ctx.transition(1);
    let bad = malformed(cls);
    let bound = binds(cls);
    let unbound = find.iter().any(|v| !bound.contains(v));
    let got = match got {
        Err(e) => {
            if bad || unbound || may_refuse(w, cls, &BTreeSet::new()) {
                ctx.count("refused_as_it_may_be", 1);
                return None;
            }
            return Some(("refused".into(), format!("{} is refused: {}", text, e)));
        }
        Ok(g) => g,
    };
    if bad {
        // Nothing it could mean; it can only be recognized as having no answers.
        return if got.is_empty() { None } else { Some(("malformed".into(), format!("{} is malformed, but has answers {:?}", text, got))) };
    }
    let n = got.len();
    let mut kws = BTreeSet::new();
    keyword_vars(cls, &mut kws);
    let name = |mut row: Vec<V>| -> Vec<V> {
        for (f, v) in find.iter().zip(row.iter_mut()) {
            if let (true, V::Kw(k)) = (kws.contains(f), &*v) {
                if let Some(e) = w.ident(k) {
                    *v = V::Ref(e);
                }
            }
        }
        row
    };
    let set: BTreeSet<Vec<V>> = got.into_iter().map(&name).collect();
    if set.len() != n {
        if sqlite_distinct(cls, find) {
            ctx.violation("C10/sqlite-distinct".to_string(), "12".to_string(), format!("{} returned {} rows, of which {} distinct", text, n, set.len()));
            return None;
        }
        return Some(("duplicates".into(), format!("{} returned {} rows, of which {} distinct", text, n, set.len())));
    }
    let mut wanted = vec![];
    for r in World::readings(cls) {
        let exp = match w.answers(cls, find, r) {
            Ok(e) => e,
            Err(Unbound) => {
                if set.is_empty() {
                    return None;
                }
                return Some(("unbound".into(), format!("{} uses a variable that nothing binds, but has answers {:?}", text, set)));
            }
        };
        let exp: BTreeSet<Vec<V>> = exp.iter().map(|r| r.iter().map(|i| w.vals[*i as usize].clone()).collect()).map(&name).collect();
        if exp == set {
            ctx.eval(1);
            if !set.is_empty() {
                ctx.count("with_answers", 1);
            }
            ctx.outcome(&(set.len(), find.len(), cls.len()));
            return None;
        }
        if !wanted.contains(&exp) {
            wanted.push(exp);
        }
    }
    let e = wanted.iter().min_by_key(|w| w.symmetric_difference(&set).count()).unwrap();
    let missing: Vec<_> = e.difference(&set).take(3).collect();
    let extra: Vec<_> = set.difference(e).take(3).collect();
    Some(("answers".into(), format!("{}\n  answers: {} instead of {}\n  missing: {:?}\n  wrong: {:?}", text, set.len(), e.len(), missing, extra)))
}

pub fn run(ctx: &Ctx) {
    let (_, ids) = databases();
    let al = alphabet(&ids);
    let n = al.len();
    let core: Vec<usize> = (0..n).filter(|i| al[*i].1).collect();
    ctx.note("alphabet", format!("{} clauses, {} of them in the reduced alphabet", n, core.len()));
    // Sequences of clauses.
    let mut jobs: Vec<Vec<usize>> = vec![];
    for i in 0..n {
        jobs.push(vec![i]);
    }
    for i in 0..n {
        for j in 0..n {
            jobs.push(vec![i, j]);
        }
    }
    // Quick: the third of three can be any clause.
    let three: Vec<usize> = if ctx.thorough { (0..n).collect() } else { core.clone() };
    for &i in &three {
        for &j in &three {
            for k in 0..n {
                if i != j && j != k && i != k {
                    jobs.push(vec![i, j, k]);
                }
            }
        }
    }
    ctx.note("sequences", jobs.len().to_string());
    // Equal longs and doubles.
    if ctx.want("numbers") {
        let mut d = Db::new();
        d.must(vocabulary());
        d.must("[[:db/add \"a\" :t/l 1] [:db/add \"b\" :t/d 1.0]]");
        let w = World::of(&d);
        for (cls, find) in [
            (vec![pat(v(X), id("t/l"), v(Y)), pat(v(Z), id("t/d"), v(Y))], vec![X]),
            (vec![pat(v(X), T::Blank, v(Y)), Cl::Cmp("<", v(Y), T::Int(5))], vec![X, Y]),
            (vec![pat(v(X), T::Blank, v(Y)), Cl::Cmp("<", v(Y), T::Int(5))], vec![Y]),
            (vec![pat(v(X), id("t/l"), v(Y)), pat(v(Z), T::Blank, v(Y))], vec![Y, Z]),
            (vec![pat(v(X), id("t/d"), v(Y)), pat(v(Z), T::Blank, v(Y))], vec![Y, Z]),
            (vec![pat(v(X), id("t/d"), v(Z)), pat(v(X), T::Blank, v(Y)), pat(v(Z), T::Blank, v(Y))], vec![X, Z]),
            (vec![pat(v(X), v(A), v(Y)), pat(v(Z), v(W), v(Y)), Cl::Cmp("<", v(Y), T::Int(5))], vec![X, Z]),
        ]
        .iter()
        {
            let b = (d.fork(), w.clone());
            if let Some((kind, what)) = judge(ctx, &b, cls, find) {
                let sig = format!("C10/numbers/{}/{}", kind, all_text(cls) + &vars_text(find));
                ctx.violation(sig, "numbers".to_string(), what);
            }
        }
    }
    ctx.par_with(
        jobs.len(),
        || Bench::new(&al),
        |b, ji| {
            let job = &jobs[ji];
            let cls: Vec<Cl> = job.iter().map(|i| al[*i].0.clone()).collect();
            let case = job.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",");
            if !ctx.want(&case) {
                return;
            }
            // Cartesian products of everything with everything tell nothing more.
            let open = cls.iter().filter(|c| matches!(c, Cl::Pat(T::Var(_), T::Var(_), T::Var(_), _) | Cl::Pat(_, T::Blank, _, T::Var(_)))).count();
            if open > 2 {
                ctx.count("skipped_products", 1);
                return;
            }
            let all: Vec<usize> = {
                let b = binds(&cls);
                let m = mentioned(&cls);
                if b.is_empty() { m.into_iter().collect() } else { b.into_iter().collect() }
            };
            if all.is_empty() {
                return;
            }
            let mut finds = vec![all.clone()];
            if job.len() <= 2 && all.len() > 1 {
                finds.extend(all.iter().map(|v| vec![*v]));
            }
            let mut failed = String::new();
            'all: for (di, d) in b.dbs.iter().enumerate() {
                for f in &finds {
                    if let Some((kind, what)) = judge(ctx, d, &cls, f) {
                        let sig = format!("C10/{}/{}", kind, case);
                        ctx.violation(sig, case.clone(), format!("database {}: {}", di, what));
                        failed = kind;
                        break 'all;
                    }
                }
            }
            if failed == "panic" {
                // It may have left a lock behind.
                *b = Bench::new(&al);
            }
            ctx.state(1);
        },
    );
}
