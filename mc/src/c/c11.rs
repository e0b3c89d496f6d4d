//! C11: find specifications -- shapes, aggregates, :with, :order, :limit, pull and `the`.
use super::c10::{databases, id, pat, s, v, val, xy, A, X, Y, Z};
use crate::db::*;
use crate::dl::*;
use crate::h::*;
use crate::val::V;
use mentat::{Binding, QueryInputs, QueryResults, TypedValue, Variable};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every find specification of a grammar (elements: variables, the five aggregates, `the`, pull; shapes: relation, collection, tuple, scalar) with every :with, :order and :limit of a set, over a set of where clauses, run on the real store and compared with a definition of the language: project the distinct bindings, group, aggregate, sort, truncate; ties may come in any order, and are compared class by class; every way to read an answer (scalar, collection, tuples of each width, relation, rows by index and in turn) is asked of each and must give the same or refuse",
        bounds: "21 where clauses over up to 3 variables (values of one type, of several, constants, nothing at all); quick: all sequences of 1 and 2 elements of 26 and triples with an aggregate in the middle, :order by up to 2 variables, :limit none/1/2/1000/variable (2, 2^32); thorough: all triples, :order by up to 3 variables",
        assumptions: vec!["variables that are only ordered by count as found for the purpose of distinctness and grouping", "an aggregate over no rows at all may answer nothing, or count 0 and sum 0"],
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum El {
    Var(usize),
    Agg(&'static str, usize),
    The(usize),
    Pull(usize),
}
use self::El::*;

impl El {
    fn var(&self) -> usize {
        match self {
            Var(v) | Agg(_, v) | The(v) | Pull(v) => *v,
        }
    }
    fn text(&self) -> String {
        let n = |v: &usize| vars_text(&[*v]);
        match self {
            Var(v) => n(v),
            Agg(op, v) => format!("({} {})", op, n(v)),
            The(v) => format!("(the {})", n(v)),
            Pull(v) => format!("(pull {} [:t/l :t/lm :t/b])", n(v)),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Shape {
    Rel,
    Coll,
    Tuple,
    Scalar,
}

pub struct Where {
    pub cls: Vec<Cl>,
    /// The types each variable is known to be limited to.
    pub types: Vec<(usize, &'static [&'static str])>,
    constants: Vec<usize>,
}

pub fn wheres() -> Vec<Where> {
    const REF: &[&str] = &["ref"];
    const LONG: &[&str] = &["long"];
    const ANY: &[&str] = &["ref", "boolean", "instant", "long", "double", "string", "uuid", "keyword"];
    let n = |i| T::Int(i);
    let mut out = vec![];
    let mut w = |cls: Vec<Cl>, types: Vec<(usize, &'static [&'static str])>, constants: Vec<usize>| out.push(Where { cls, types, constants });
    w(vec![xy("t/l")], vec![(X, REF), (Y, LONG)], vec![]);
    w(vec![xy("t/lm")], vec![(X, REF), (Y, LONG)], vec![]);
    w(vec![xy("t/lm"), pat(v(X), id("t/m"), v(Z))], vec![(X, REF), (Y, LONG), (Z, LONG)], vec![]);
    w(vec![xy("t/lm"), pat(v(X), id("t/r"), v(Z))], vec![(X, REF), (Y, LONG), (Z, REF)], vec![]);
    w(vec![xy("t/d"), pat(v(Z), id("t/rm"), v(X))], vec![(X, REF), (Y, &["double"]), (Z, REF)], vec![]);
    w(vec![xy("t/b")], vec![(X, REF), (Y, &["boolean"])], vec![]);
    w(vec![xy("t/s"), pat(v(X), id("t/m"), v(Z))], vec![(X, REF), (Y, &["string"]), (Z, LONG)], vec![]);
    w(vec![xy("t/f")], vec![(X, REF), (Y, &["string"])], vec![]);
    w(vec![xy("t/i")], vec![(X, REF), (Y, &["instant"])], vec![]);
    w(vec![xy("t/k")], vec![(X, REF), (Y, &["keyword"])], vec![]);
    w(vec![pat(v(X), id("t/rm"), T::Blank), pat(v(X), T::Blank, v(Y))], vec![(X, REF), (Y, ANY)], vec![]);
    w(vec![pat(v(X), id("t/lm"), v(Z)), pat(v(X), v(A), v(Y)), pat(v(A), id("db/ident"), id("t/r"))], vec![(X, REF), (Y, ANY), (Z, LONG)], vec![]);
    w(vec![Cl::Or(vec![vec![xy("t/lm")], vec![xy("t/d")]])], vec![(X, REF), (Y, &["long", "double"])], vec![]);
    w(vec![Cl::Or(vec![vec![xy("t/m"), pat(v(X), id("t/b"), T::Blank)], vec![xy("t/b")]])], vec![(X, REF), (Y, &["long", "boolean"])], vec![]);
    w(vec![Cl::Scalar(Y, n(1)), xy("t/lm")], vec![(X, REF), (Y, LONG)], vec![Y]);
    w(vec![Cl::Scalar(Z, n(7)), xy("t/lm")], vec![(X, REF), (Y, LONG), (Z, LONG)], vec![Z]);
    w(vec![Cl::Rel(vec![Some(Y), Some(Z)], vec![vec![n(1), s("b")], vec![n(2), s("a")], vec![n(3), s("a")], vec![n(2), s("b")]])], vec![(Y, LONG), (Z, &["string"])], vec![]);
    w(vec![Cl::Scalar(Y, n(1)), Cl::Scalar(Z, s("q"))], vec![(Y, LONG), (Z, &["string"])], vec![Y, Z]);
    w(vec![pat(v(X), id("t/nope"), v(Y))], vec![(X, REF), (Y, ANY)], vec![]);
    w(vec![pat(v(X), id("t/l"), n(99)), xy("t/lm")], vec![(X, REF), (Y, LONG)], vec![]);
    w(vec![Cl::Scalar(Z, n(7)), pat(v(X), id("t/l"), n(99)), xy("t/lm")], vec![(X, REF), (Y, LONG), (Z, LONG)], vec![Z]);
    out
}

/// What the type of an aggregate's result may be; None if it doesn't apply.
fn aggregate_types(op: &str, ty: &[&str]) -> Option<Vec<&'static str>> {
    let numeric = ty.iter().all(|t| ["long", "double"].contains(t));
    let results = || ["long", "double"].iter().filter(|t| ty.contains(t)).cloned().collect::<Vec<_>>();
    match op {
        "count" => Some(vec!["long"]),
        "avg" if numeric => Some(vec!["double"]),
        "sum" | "min" | "max" if numeric => Some(results()),
        "min" | "max" => match ty {
            ["instant"] => Some(vec!["instant"]),
            ["boolean"] => Some(vec!["boolean"]),
            ["string"] => Some(vec!["string"]),
            _ => None,
        },
        _ => None,
    }
}

fn tag(x: &V) -> i32 {
    match x {
        V::Ref(_) => 0,
        V::Bool(_) => 1,
        V::Inst(_) => 4,
        V::Long(_) | V::Dbl(_) => 5,
        V::Str(_) => 10,
        V::Uuid(_) => 11,
        V::Kw(_) => 13,
        _ => 99,
    }
}
fn num(x: &V) -> f64 {
    match x {
        V::Long(i) => *i as f64,
        V::Dbl(b) => f64::from_bits(*b as u64),
        _ => f64::NAN,
    }
}
fn cmp(a: &V, b: &V) -> Ordering {
    tag(a).cmp(&tag(b)).then_with(|| match (a, b) {
        (V::Long(_), _) | (V::Dbl(_), _) => num(a).partial_cmp(&num(b)).unwrap(),
        (V::Str(a), V::Str(b)) => a.as_bytes().cmp(b.as_bytes()),
        (V::Kw(a), V::Kw(b)) => a.as_bytes().cmp(b.as_bytes()),
        _ => a.cmp(b),
    })
}

/// A cell of an answer.
#[derive(Clone, PartialEq, Debug)]
enum Cell {
    One(V),
    /// A number in one of these types.
    Num(f64, Vec<&'static str>),
    Map(BTreeMap<String, BTreeSet<V>>),
}

fn fits(c: &Cell, b: &Binding) -> bool {
    match (c, b) {
        (Cell::Map(m), Binding::Map(got)) => {
            let mut g: BTreeMap<String, BTreeSet<V>> = BTreeMap::new();
            for (k, v) in got.0.iter() {
                let e = g.entry(k.to_string().trim_start_matches(':').to_string()).or_default();
                match v {
                    Binding::Vec(l) => {
                        if l.len() != l.iter().map(val).collect::<BTreeSet<_>>().len() {
                            return false;
                        }
                        e.extend(l.iter().map(val))
                    }
                    v => {
                        e.insert(val(v));
                    }
                }
            }
            *m == g
        }
        (Cell::One(v), b) => *v == val(b),
        (Cell::Num(n, t), b) => {
            let x = val(b);
            num(&x) == *n && t.contains(&if let V::Long(_) = x { "long" } else { "double" })
        }
        _ => false,
    }
}

/// What one row of the answer may be.
type Alternatives = Vec<Vec<Cell>>;

struct Query<'a> {
    wh: &'a Where,
    shape: Shape,
    els: &'a [El],
    with: Vec<usize>,
    order: Vec<(usize, bool)>,
    limit: Option<usize>,
    limit_var: bool,
}

impl<'a> Query<'a> {
    fn text(&self) -> String {
        let e: Vec<String> = self.els.iter().map(|e| e.text()).collect();
        let e = e.join(" ");
        let find = match self.shape {
            Shape::Rel => e,
            Shape::Coll => format!("[{} ...]", e),
            Shape::Tuple => format!("[{}]", e),
            Shape::Scalar => format!("{} .", e),
        };
        let with = if self.with.is_empty() { "".into() } else { format!(" :with {}", vars_text(&self.with)) };
        let inn = if self.limit_var { " :in ?lim" } else { "" };
        let order = if self.order.is_empty() {
            "".into()
        } else {
            format!(" :order {}", self.order.iter().map(|(v, asc)| format!("({} {})", if *asc { "asc" } else { "desc" }, vars_text(&[*v]))).collect::<Vec<_>>().join(" "))
        };
        let limit = match self.limit {
            None => "".into(),
            Some(_) if self.limit_var => " :limit ?lim".into(),
            Some(n) => format!(" :limit {}", n),
        };
        format!("[:find {}{}{} :where {}{}{}]", find, with, inn, all_text(&self.wh.cls), order, limit)
    }
    /// Whether it may be refused, though it has a meaning.
    fn repeats(&self) -> bool {
        self.els.iter().enumerate().any(|(i, e)| self.els[..i].iter().any(|f| !matches!((e, f), (Agg(..), _) | (_, Agg(..))) && e.var() == f.var()))
    }
    /// Whether it has no meaning.
    fn meaningless(&self) -> bool {
        let of = |v: usize| self.wh.types.iter().find(|t| t.0 == v).map(|t| t.1);
        for v in self.els.iter().map(|e| e.var()).chain(self.with.iter().cloned()).chain(self.order.iter().map(|o| o.0)) {
            if of(v).is_none() {
                return true;
            }
        }
        for (i, e) in self.els.iter().enumerate() {
            match e {
                Agg(op, v) => {
                    if aggregate_types(op, of(*v).unwrap()).is_none() {
                        return true;
                    }
                }
                Pull(v) if !of(*v).unwrap().contains(&"ref") || self.wh.constants.contains(v) => return true,
                _ => {}
            }
            for f in &self.els[..i] {
                let plain = |e: &El| matches!(e, Var(_) | The(_));
                if plain(e) && plain(f) && e.var() == f.var() {
                    return true;
                }
            }
        }
        let picks = self.els.iter().filter(|e| matches!(e, Agg("min", _) | Agg("max", _))).count();
        self.els.iter().any(|e| matches!(e, The(_))) && picks != 1
    }
    /// The rows of the answer, in classes of equals: those of a class may come in any order.
    fn answer(&self, w: &World, maps: &BTreeMap<i64, BTreeMap<String, BTreeSet<V>>>) -> Vec<Vec<Alternatives>> {
        let mut vars: Vec<usize> = vec![];
        let mut push = |v: usize| {
            if !vars.contains(&v) {
                vars.push(v)
            }
        };
        let aggregates = self.els.iter().any(|e| matches!(e, Agg(..)));
        self.els.iter().for_each(|e| push(e.var()));
        self.order.iter().for_each(|o| push(o.0));
        if aggregates {
            self.with.iter().for_each(|v| push(*v));
        }
        let at = |v: usize| vars.iter().position(|x| *x == v).unwrap();
        let bindings = w.answers(&self.wh.cls, &vars, STRICT).unwrap_or_else(|_| panic!("unbound variable"));
        let rows: Vec<Vec<V>> = bindings.iter().map(|r| r.iter().map(|i| w.vals[*i as usize].clone()).collect()).collect();
        let cell = |e: &El, row: &Vec<V>| match e {
            Pull(v) => match &row[at(*v)] {
                V::Ref(i) => Cell::Map(maps.get(i).cloned().unwrap_or_default()),
                x => panic!("pull of {:?}", x),
            },
            e => Cell::One(row[at(e.var())].clone()),
        };
        // (key to order by, the row)
        let mut found: Vec<(Vec<V>, Alternatives)> = vec![];
        let key = |row: &Vec<V>| -> Vec<V> { self.order.iter().map(|o| row[at(o.0)].clone()).collect() };
        if aggregates {
            let mut groups: BTreeMap<Vec<V>, Vec<&Vec<V>>> = BTreeMap::new();
            let by: Vec<usize> = self.els.iter().filter(|e| matches!(e, Var(_) | Pull(_))).map(|e| at(e.var())).chain(self.order.iter().map(|o| at(o.0))).collect();
            for row in &rows {
                groups.entry(by.iter().map(|i| row[*i].clone()).collect()).or_default().push(row);
            }
            for g in groups.values() {
                let best = |op: &str, i: usize| -> V {
                    let it = g.iter().map(|r| r[i].clone());
                    if op == "min" { it.min_by(cmp).unwrap() } else { it.max_by(cmp).unwrap() }
                };
                // The rows that `the` may mean.
                let from: Vec<&&Vec<V>> = match self.els.iter().find(|e| matches!(e, Agg("min", _) | Agg("max", _))) {
                    Some(Agg(op, v)) if self.els.iter().any(|e| matches!(e, The(_))) => {
                        let b = best(op, at(*v));
                        g.iter().filter(|r| cmp(&r[at(*v)], &b) == Ordering::Equal).collect()
                    }
                    _ => vec![&g[0]],
                };
                let alts = from
                    .iter()
                    .map(|r| {
                        self.els
                            .iter()
                            .map(|e| match e {
                                Agg(op, v) => {
                                    let ty = self.wh.types.iter().find(|t| t.0 == *v).unwrap().1;
                                    let ty = aggregate_types(op, ty).unwrap();
                                    let i = at(*v);
                                    let sum = || g.iter().map(|r| num(&r[i])).sum::<f64>();
                                    match *op {
                                        "count" => Cell::Num(g.len() as f64, ty),
                                        "sum" => Cell::Num(sum(), ty),
                                        "avg" => Cell::Num(sum() / g.len() as f64, ty),
                                        op => match best(op, i) {
                                            x @ V::Long(_) | x @ V::Dbl(_) => Cell::Num(num(&x), ty),
                                            x => Cell::One(x),
                                        },
                                    }
                                }
                                e => cell(e, r),
                            })
                            .collect()
                    })
                    .collect();
                found.push((key(g[0]), alts));
            }
        } else {
            for row in &rows {
                found.push((key(row), vec![self.els.iter().map(|e| cell(e, row)).collect()]));
            }
        }
        let by_key = |a: &Vec<V>, b: &Vec<V>| {
            for (i, o) in self.order.iter().enumerate() {
                let c = cmp(&a[i], &b[i]);
                let c = if o.1 { c } else { c.reverse() };
                if c != Ordering::Equal {
                    return c;
                }
            }
            Ordering::Equal
        };
        found.sort_by(|a, b| by_key(&a.0, &b.0));
        let mut out: Vec<Vec<Alternatives>> = vec![];
        let mut last: Option<Vec<V>> = None;
        for (k, a) in found {
            if last.as_ref().map_or(false, |l| by_key(l, &k) == Ordering::Equal) {
                out.last_mut().unwrap().push(a);
            } else {
                out.push(vec![a]);
            }
            last = Some(k);
        }
        out
    }
}

/// Can each of these rows be a different one of the expected?
fn matches(rows: &[Vec<Binding>], class: &[Alternatives]) -> bool {
    fn place(i: usize, can: &[Vec<bool>], of: &mut Vec<Option<usize>>, seen: &mut Vec<bool>) -> bool {
        for j in 0..of.len() {
            if can[i][j] && !seen[j] {
                seen[j] = true;
                if of[j].map_or(true, |k| place(k, can, of, seen)) {
                    of[j] = Some(i);
                    return true;
                }
            }
        }
        false
    }
    let can: Vec<Vec<bool>> = rows.iter().map(|r| class.iter().map(|c| c.iter().any(|a| a.len() == r.len() && a.iter().zip(r).all(|(c, b)| fits(c, b)))).collect()).collect();
    let mut of = vec![None; class.len()];
    (0..rows.len()).all(|i| place(i, &can, &mut of, &mut vec![false; class.len()]))
}

fn judge(ctx: &Ctx, db: &Db, w: &World, maps: &BTreeMap<i64, BTreeMap<String, BTreeSet<V>>>, q: &Query) -> Option<(&'static str, String)> {
    let text = q.text();
    let inputs = || {
        if q.limit_var {
            QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?lim"), TypedValue::Long(q.limit.unwrap() as i64))])
        } else {
            QueryInputs::default()
        }
    };
    if std::env::var("MC_EXPLAIN").is_ok() {
        match db.conn.q_explain(&db.sql, &text, inputs()) {
            Ok(mentat::QueryExplanation::ExecutionPlan { query, .. }) => eprintln!("{}\n{}", text, query.sql),
            _ => eprintln!("{}", text),
        }
    }
    let got = guard(|| db.conn.q_once(&db.sql, text.as_str(), inputs()).map_err(|e| e.to_string()));
    ctx.transition(1);
    let got = match got {
        Ok(Ok(o)) => match guard(|| access(&o)) {
            Ok(Ok(())) => Ok(Ok(o.results)),
            Ok(Err(e)) | Err(e) => return Some(("access", format!("{}: reading the answer: {}", text, e))),
        },
        Ok(Err(e)) => Ok(Err(e)),
        Err(p) => Err(p),
    };
    let got = match got {
        Err(p) => return Some(("panic", format!("{}: {}", text, p))),
        Ok(g) => g,
    };
    let may = q.meaningless();
    let got = match got {
        Err(_) if may || q.repeats() => {
            ctx.count("refused_as_it_may_be", 1);
            return None;
        }
        Err(e) => return Some(("refused", format!("{} is refused: {}", text, e))),
        Ok(g) => g,
    };
    let unit = matches!(q.shape, Shape::Tuple | Shape::Scalar);
    let rows: Vec<Vec<Binding>> = match (q.shape, got) {
        (Shape::Rel, QueryResults::Rel(r)) => r.into_iter().map(|r| r.into_iter().collect()).collect(),
        (Shape::Coll, QueryResults::Coll(c)) => c.into_iter().map(|b| vec![b]).collect(),
        (Shape::Tuple, QueryResults::Tuple(t)) => t.into_iter().collect(),
        (Shape::Scalar, QueryResults::Scalar(s)) => s.into_iter().map(|b| vec![b]).collect(),
        (_, o) => return Some(("shape", format!("{} answered {:?}", text, o))),
    };
    if may {
        // Of constants alone, anything can be found.
        let constant = q.wh.types.iter().all(|t| q.wh.constants.contains(&t.0)) || q.els.iter().any(|e| matches!(e, Pull(v) if q.wh.constants.contains(v)));
        return if rows.is_empty() || constant { None } else { Some(("accepted", format!("{} has no meaning, but answers {:?}", text, rows))) };
    }
    let classes = q.answer(w, maps);
    let total: usize = classes.iter().map(|c| c.len()).sum();
    if total == 0 {
        let zero = rows.len() == 1
            && !q.els.iter().any(|e| matches!(e, Var(_) | Pull(_) | The(_)))
            && q.order.iter().all(|o| q.wh.constants.contains(&o.0))
            && rows[0].iter().all(|b| matches!(val(b), V::Long(0)) || num(&val(b)) == 0.0)
            && q.els.iter().all(|e| matches!(e, Agg("count", _) | Agg("sum", _)));
        return if rows.is_empty() || zero { None } else { Some(("answers", format!("{} answers {:?} instead of nothing", text, rows))) };
    }
    let n = q.limit.unwrap_or(usize::max_value()).min(if unit { 1 } else { usize::max_value() }).min(total);
    ctx.outcome(&(total, n, q.els.len(), q.order.len()));
    let mut ok = rows.len() == n;
    let mut i = 0;
    for c in &classes {
        let m = c.len().min(n - i);
        ok = ok && matches(&rows[i..i + m], c);
        i += m;
        if !ok || i == n {
            break;
        }
    }
    ctx.eval(1);
    if ok {
        return None;
    }
    Some(("answers", format!("{}\n  answers:  {:?}\n  expected: {} of {:?}", text, rows, n, classes)))
}

pub fn run(ctx: &Ctx) {
    let ws = wheres();
    let ops = ["count", "sum", "min", "max", "avg"];
    let mut els: Vec<El> = vec![];
    for x in [X, Y, Z].iter() {
        els.push(Var(*x));
        ops.iter().for_each(|o| els.push(Agg(o, *x)));
        els.push(The(*x));
        if *x != Y {
            els.push(Pull(*x));
        }
    }
    let mut finds: Vec<Vec<El>> = els.iter().map(|e| vec![e.clone()]).collect();
    for a in &els {
        for b in &els {
            finds.push(vec![a.clone(), b.clone()]);
            for c in &els {
                let plain = |e: &El| matches!(e, Var(_) | The(_));
                if ctx.thorough || plain(a) && plain(c) && matches!(b, Agg(..)) || plain(a) && plain(b) && plain(c) {
                    finds.push(vec![a.clone(), b.clone(), c.clone()]);
                }
            }
        }
    }
    ctx.note("finds", finds.len().to_string());
    let jobs: Vec<(usize, usize)> = (0..ws.len()).flat_map(|w| (0..finds.len()).map(move |f| (w, f))).collect();
    ctx.par_with(
        jobs.len(),
        || {
            let db = databases().0.remove(0);
            let mut w = World::of(&db);
            wheres().iter().for_each(|h| h.cls.iter().for_each(|c| w.learn(c)));
            // What pull is to find.
            let mut maps: BTreeMap<i64, BTreeMap<String, BTreeSet<V>>> = BTreeMap::new();
            for a in ["t/l", "t/lm", "t/b"].iter() {
                let mut w2 = w.clone();
                let c = pat(v(X), id(a), v(Y));
                w2.learn(&c);
                for r in w2.answers(&[c], &[X, Y], STRICT).ok().unwrap() {
                    if let V::Ref(e) = w2.vals[r[0] as usize] {
                        maps.entry(e).or_default().entry(a.to_string()).or_default().insert(w2.vals[r[1] as usize].clone());
                    }
                }
            }
            (db, w, maps)
        },
        |(db, w, maps), ji| {
            let (wi, fi) = jobs[ji];
            let wh = &ws[wi];
            let f = &finds[fi];
            let vars: Vec<usize> = wh.types.iter().map(|t| t.0).collect();
            if f.iter().any(|e| !vars.contains(&e.var())) && (fi + wi) % 7 != 0 {
                // Unbound variables are all alike.
                return;
            }
            let mut shapes = vec![Shape::Rel, Shape::Tuple];
            if f.len() == 1 {
                shapes = vec![Shape::Rel, Shape::Coll, Shape::Tuple, Shape::Scalar];
            }
            let aggregates = f.iter().any(|e| matches!(e, Agg(..)));
            let mut withs: Vec<Vec<usize>> = vec![vec![]];
            withs.extend(vars.iter().map(|v| vec![*v]));
            if vars.len() > 2 && aggregates {
                withs.push(vars.clone());
            }
            let mut orders: Vec<Vec<(usize, bool)>> = vec![vec![]];
            for a in &vars {
                orders.push(vec![(*a, true)]);
                orders.push(vec![(*a, false)]);
                for b in &vars {
                    if a != b {
                        orders.push(vec![(*a, false), (*b, true)]);
                        if ctx.thorough {
                            orders.push(vec![(*a, true), (*b, true)]);
                            orders.push(vec![(*a, true), (*b, false)]);
                        }
                    }
                }
            }
            let limits: Vec<(Option<usize>, bool)> = vec![(None, false), (Some(1), false), (Some(2), false), (Some(1000), false), (Some(2), true), (Some(4_294_967_296), true)];
            let mut i = 0;
            for &shape in &shapes {
                for with in &withs {
                    for order in &orders {
                        for &(limit, limit_var) in &limits {
                            i += 1;
                            if !with.is_empty() && !aggregates && i % 5 != 0 {
                                continue;
                            }
                            if limit.is_some() && (limit_var || limit == Some(1000)) && f.len() > 1 {
                                continue;
                            }
                            let case = format!("{},{},{}", wi, fi, i);
                            if !ctx.want(&case) {
                                continue;
                            }
                            let q = Query { wh, shape, els: f, with: with.clone(), order: order.clone(), limit, limit_var };
                            if q.meaningless() && (i - 1) % 37 != 0 {
                                // Neither order nor limit gives it one.
                                continue;
                            }
                            if let Some((kind, what)) = judge(ctx, db, w, maps, &q) {
                                ctx.violation(format!("C11/{}/{}", kind, q.text()), case, what);
                                if kind == "panic" {
                                    let d = databases().0.remove(0);
                                    *db = d;
                                }
                                return;
                            }
                            ctx.state(1);
                        }
                    }
                }
            }
        },
    );
    // Wide answers: each column is what was asked for there, with and without a query to the store.
    let db = databases().0.remove(0);
    for width in 1..10usize {
        for shape in ["tuple", "relation"].iter() {
            for stored in [false, true].iter() {
                for rot in 0..width {
                    let case = format!("wide,{},{},{},{}", width, shape, stored, rot);
                    if !ctx.want(&case) {
                        continue;
                    }
                    let order: Vec<usize> = (0..width).map(|i| (i + rot) % width).collect();
                    let find = order.iter().map(|i| format!("?v{}", i)).collect::<Vec<_>>().join(" ");
                    let mut text = if *shape == "tuple" { format!("[:find [{}] :where", find) } else { format!("[:find {} :where", find) };
                    for i in 0..width {
                        text += &format!(" [(ground {}) ?v{}]", 1000 + i, i);
                    }
                    if *stored {
                        text += " [_ :t/l _]";
                    }
                    text += "]";
                    let want: Vec<Binding> = order.iter().map(|i| Binding::Scalar(TypedValue::Long(1000 + *i as i64))).collect();
                    ctx.state(1);
                    ctx.transition(1);
                    ctx.count("wide", 1);
                    let r = guard(|| {
                        let o = db.conn.q_once(&db.sql, text.as_str(), None).map_err(|e| e.to_string())?;
                        access(&o)?;
                        match o.results {
                            QueryResults::Tuple(Some(ref t)) if *t == want => Ok(()),
                            QueryResults::Rel(ref r) if r.values == want => Ok(()),
                            ref r => Err(format!("{:?} instead of {:?}", r, want)),
                        }
                    })
                    .and_then(|r| r);
                    if let Err(e) = r {
                        ctx.violation(format!("C11/wide/{}/{}/{}", width, shape, stored), case, format!("{}: {}", text, e));
                    }
                }
            }
        }
    }
}
