//! Datalog: an abstract syntax of the query language, its printer, and a naive evaluator that knows
//! nothing of SQL, types of columns or the order of clauses.
use crate::db::Db;
use crate::val::V;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub const NV: usize = 8;
pub const NAMES: [&str; NV] = ["?x", "?y", "?z", "?a", "?t", "?w", "?u", "?b"];
pub type Row = [u32; NV];

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum T {
    Var(usize),
    Blank,
    /// An integer literal.
    Int(i64),
    /// A keyword literal.
    Id(String),
    /// Any other literal.
    C(V),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Cl {
    Pat(T, T, T, T),
    Or(Vec<Vec<Cl>>),
    OrJoin(Vec<usize>, Vec<Vec<Cl>>),
    Not(Vec<Cl>),
    NotJoin(Vec<usize>, Vec<Cl>),
    Cmp(&'static str, T, T),
    Type(usize, &'static str),
    Scalar(usize, T),
    Coll(usize, Vec<T>),
    Tuple(Vec<Option<usize>>, Vec<T>),
    Rel(Vec<Option<usize>>, Vec<Vec<T>>),
}

impl T {
    pub fn text(&self) -> String {
        match self {
            T::Var(i) => NAMES[*i].into(),
            T::Blank => "_".into(),
            T::Int(i) => i.to_string(),
            T::Id(k) => format!(":{}", k),
            T::C(v) => v.edn(),
        }
    }
}

fn places(p: &[Option<usize>]) -> String {
    p.iter().map(|x| x.map_or("_", |i| NAMES[i])).collect::<Vec<_>>().join(" ")
}
fn terms(p: &[T]) -> String {
    p.iter().map(|t| t.text()).collect::<Vec<_>>().join(" ")
}
pub fn vars_text(v: &[usize]) -> String {
    v.iter().map(|i| NAMES[*i]).collect::<Vec<_>>().join(" ")
}
pub fn all_text(c: &[Cl]) -> String {
    c.iter().map(|c| c.text()).collect::<Vec<_>>().join(" ")
}
fn arms_text(a: &[Vec<Cl>]) -> String {
    a.iter().map(|c| if c.len() == 1 { c[0].text() } else { format!("(and {})", all_text(c)) }).collect::<Vec<_>>().join(" ")
}

impl Cl {
    pub fn text(&self) -> String {
        match self {
            Cl::Pat(e, a, v, T::Blank) if *v == T::Blank => format!("[{} {}]", e.text(), a.text()),
            Cl::Pat(e, a, v, T::Blank) => format!("[{} {} {}]", e.text(), a.text(), v.text()),
            Cl::Pat(e, a, v, t) => format!("[{} {} {} {}]", e.text(), a.text(), v.text(), t.text()),
            Cl::Or(a) => format!("(or {})", arms_text(a)),
            Cl::OrJoin(v, a) => format!("(or-join [{}] {})", vars_text(v), arms_text(a)),
            Cl::Not(c) => format!("(not {})", all_text(c)),
            Cl::NotJoin(v, c) => format!("(not-join [{}] {})", vars_text(v), all_text(c)),
            Cl::Cmp(o, a, b) => format!("[({} {} {})]", o, a.text(), b.text()),
            Cl::Type(v, t) => format!("[(type {} :db.type/{})]", NAMES[*v], t),
            Cl::Scalar(v, t) => format!("[(ground {}) {}]", t.text(), NAMES[*v]),
            Cl::Coll(v, t) => format!("[(ground [{}]) [{} ...]]", terms(t), NAMES[*v]),
            Cl::Tuple(p, t) => format!("[(ground [{}]) [{}]]", terms(t), places(p)),
            Cl::Rel(p, r) => format!("[(ground [{}]) [[{}]]]", r.iter().map(|t| format!("[{}]", terms(t))).collect::<Vec<_>>().join(" "), places(p)),
        }
    }
    /// Every variable the clause mentions.
    pub fn vars(&self, out: &mut BTreeSet<usize>) {
        let mut t = |t: &T| {
            if let T::Var(i) = t {
                out.insert(*i);
            }
        };
        match self {
            Cl::Pat(e, a, v, x) => [e, a, v, x].iter().for_each(|y| t(y)),
            Cl::Or(a) => a.iter().flatten().for_each(|c| c.vars(out)),
            Cl::OrJoin(vs, a) => {
                out.extend(vs.iter().cloned());
                a.iter().flatten().for_each(|c| c.vars(out))
            }
            Cl::Not(c) => c.iter().for_each(|c| c.vars(out)),
            Cl::NotJoin(vs, c) => {
                out.extend(vs.iter().cloned());
                c.iter().for_each(|c| c.vars(out))
            }
            Cl::Cmp(_, a, b) => {
                t(a);
                t(b)
            }
            Cl::Type(v, _) => {
                out.insert(*v);
            }
            Cl::Scalar(v, x) => {
                out.insert(*v);
                if let T::Var(i) = x {
                    out.insert(*i);
                }
            }
            Cl::Coll(v, _) => {
                out.insert(*v);
            }
            Cl::Tuple(p, _) | Cl::Rel(p, _) => out.extend(p.iter().flatten().cloned()),
        }
    }
    /// The variables the clause binds, by itself.
    pub fn binds(&self) -> BTreeSet<usize> {
        let mut out = BTreeSet::new();
        match self {
            Cl::Pat(..) | Cl::Scalar(..) | Cl::Coll(..) | Cl::Tuple(..) | Cl::Rel(..) => self.vars(&mut out),
            Cl::Or(a) => {
                // Bound by every arm.
                let mut it = a.iter().map(|c| binds(c));
                if let Some(f) = it.next() {
                    out = it.fold(f, |x, y| x.intersection(&y).cloned().collect());
                }
            }
            Cl::OrJoin(v, a) => {
                let mut it = a.iter().map(|c| binds(c));
                if let Some(f) = it.next() {
                    out = it.fold(f, |x, y| x.intersection(&y).cloned().collect());
                }
                out.retain(|x| v.contains(x));
            }
            _ => {}
        }
        out
    }
}

pub fn binds(c: &[Cl]) -> BTreeSet<usize> {
    c.iter().flat_map(|c| c.binds()).collect()
}
pub fn mentioned(c: &[Cl]) -> BTreeSet<usize> {
    let mut out = BTreeSet::new();
    c.iter().for_each(|c| c.vars(&mut out));
    out
}

/// What the text of a query leaves open: an integer or keyword literal whose type nothing around it
/// fixes. The evaluator is run once per reading.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Reading {
    /// An integer literal also matches equal values of other types stored as numbers.
    pub wide_ints: bool,
    /// A keyword literal under an unknown attribute also matches the entity it names.
    pub kw_refs: bool,
    /// The variables for which a ground integer or keyword that could be an entity is one.
    pub ground_refs: u32,
}
pub const STRICT: Reading = Reading { wide_ints: false, kw_refs: false, ground_refs: 0 };

#[derive(Clone)]
pub struct World {
    pub vals: Vec<V>,
    pub ids: HashMap<V, u32>,
    pub datoms: Vec<[u32; 4]>,
    by_a: HashMap<u32, Vec<usize>>,
    by_e: HashMap<u32, Vec<usize>>,
    pub idents: HashMap<String, i64>,
    /// Attribute -> value type ("long", ...).
    pub attrs: HashMap<i64, String>,
}

#[derive(Debug)]
pub struct Unbound;
type Res<X> = Result<X, Unbound>;

impl World {
    pub fn of(db: &Db) -> World {
        let mut w = World { vals: vec![V::Bad("unbound".into())], ids: HashMap::new(), datoms: vec![], by_a: HashMap::new(), by_e: HashMap::new(), idents: HashMap::new(), attrs: HashMap::new() };
        let ds = db.datoms();
        let mut names: HashMap<i64, String> = HashMap::new();
        for ((e, a, v), tx) in &ds {
            let d = [w.id(&V::Ref(*e)), w.id(&V::Ref(*a)), w.id(v), w.id(&V::Ref(*tx))];
            w.by_a.entry(d[1]).or_default().push(w.datoms.len());
            w.by_e.entry(d[0]).or_default().push(w.datoms.len());
            w.datoms.push(d);
            if let (1, V::Kw(k)) = (*a, v) {
                w.idents.insert(k.clone(), *e);
                names.insert(*e, k.clone());
            }
        }
        let vt = w.idents["db/valueType"];
        for ((e, a, v), _) in &ds {
            if *a == vt {
                if let V::Ref(t) = v {
                    w.attrs.insert(*e, names[t].trim_start_matches("db.type/").to_string());
                }
            }
        }
        w
    }
    pub fn id(&mut self, v: &V) -> u32 {
        if let Some(i) = self.ids.get(v) {
            return *i;
        }
        self.vals.push(v.clone());
        let i = (self.vals.len() - 1) as u32;
        self.ids.insert(v.clone(), i);
        i
    }
    /// Make sure every literal of the clauses has an id.
    pub fn learn(&mut self, c: &Cl) {
        let mut t: Vec<&T> = vec![];
        match c {
            Cl::Pat(e, a, v, x) => t.extend([e, a, v, x]),
            Cl::Or(a) | Cl::OrJoin(_, a) => a.iter().flatten().for_each(|c| self.learn(c)),
            Cl::Not(c) | Cl::NotJoin(_, c) => c.iter().for_each(|c| self.learn(c)),
            Cl::Cmp(_, a, b) => t.extend([a, b]),
            Cl::Type(..) => {}
            Cl::Scalar(_, x) => t.push(x),
            Cl::Coll(_, x) | Cl::Tuple(_, x) => t.extend(x),
            Cl::Rel(_, x) => t.extend(x.iter().flatten()),
        }
        for x in t {
            match x {
                T::Int(i) => {
                    for v in [V::Ref(*i), V::Long(*i), V::Inst(*i), V::dbl(*i as f64)].iter() {
                        self.id(v);
                    }
                    if *i == 0 || *i == 1 {
                        self.id(&V::Bool(*i == 1));
                    }
                }
                T::Id(k) => {
                    self.id(&V::Kw(k.clone()));
                    if let Some(e) = self.idents.get(k).cloned() {
                        self.id(&V::Ref(e));
                    }
                }
                T::C(v) => {
                    self.id(v);
                }
                _ => {}
            }
        }
    }
    fn look(&self, v: V) -> u32 {
        self.ids.get(&v).cloned().unwrap_or(0)
    }
    pub fn ident(&self, k: &str) -> Option<i64> {
        self.idents.get(k).cloned()
    }
    /// The values a literal may stand for, in a place that holds an entity.
    fn entity(&self, t: &T) -> Vec<u32> {
        match t {
            T::Int(i) => vec![self.look(V::Ref(*i))],
            T::Id(k) => self.idents.get(k).map_or(vec![], |e| vec![self.look(V::Ref(*e))]),
            _ => vec![],
        }
    }
    fn value(&self, t: &T, attr: Option<&str>, r: Reading) -> Vec<u32> {
        let ty = |n: &str| attr.map_or(true, |a| a == n);
        let mut out = vec![];
        match t {
            T::Int(i) => {
                if ty("ref") {
                    out.push(self.look(V::Ref(*i)));
                }
                if ty("long") {
                    out.push(self.look(V::Long(*i)));
                }
                if r.wide_ints {
                    if ty("double") {
                        out.push(self.look(V::dbl(*i as f64)));
                    }
                    if ty("instant") {
                        out.push(self.look(V::Inst(*i)));
                    }
                }
            }
            T::Id(k) => {
                if ty("keyword") {
                    out.push(self.look(V::Kw(k.clone())));
                }
                if attr == Some("ref") || attr.is_none() && r.kw_refs {
                    out.extend(self.entity(t));
                }
            }
            T::C(v) => out.push(self.look(v.clone())),
            _ => {}
        }
        out.retain(|x| *x != 0);
        out
    }
    fn pattern(&self, p: (&T, &T, &T, &T), rows: &[Row], r: Reading) -> Vec<Row> {
        let (e, a, v, t) = p;
        let attr = match a {
            T::Int(i) => Some(*i),
            T::Id(k) => self.idents.get(k).cloned(),
            _ => None,
        };
        let known = match a {
            T::Int(_) | T::Id(_) => match attr.and_then(|a| self.attrs.get(&a)) {
                Some(ty) => Some(ty.as_str()),
                // Not an attribute.
                None => return vec![],
            },
            _ => None,
        };
        let want: [Option<Vec<u32>>; 4] = [
            if let T::Int(_) | T::Id(_) = e { Some(self.entity(e)) } else { None },
            if let T::Int(_) | T::Id(_) = a { Some(self.entity(a)) } else { None },
            if let T::Int(_) | T::Id(_) | T::C(_) = v { Some(self.value(v, known, r)) } else { None },
            if let T::Int(_) | T::Id(_) = t { Some(self.entity(t)) } else { None },
        ];
        let var: Vec<Option<usize>> = [e, a, v, t].iter().map(|t| if let T::Var(i) = t { Some(*i) } else { None }).collect();
        let none = vec![];
        let mut out = vec![];
        for row in rows {
            let key = |i: usize| match (&want[i], var[i]) {
                (Some(w), _) => w.first().cloned().or(Some(u32::max_value())),
                (None, Some(x)) if row[x] != 0 => Some(row[x]),
                _ => None,
            };
            let mut check = |d: &[u32; 4]| {
                let mut n = *row;
                for i in 0..4 {
                    if let Some(w) = &want[i] {
                        if !w.contains(&d[i]) {
                            return;
                        }
                    }
                    if let Some(x) = var[i] {
                        if n[x] == 0 {
                            n[x] = d[i];
                        } else if n[x] != d[i] {
                            return;
                        }
                    }
                }
                out.push(n);
            };
            if let Some(k) = key(0) {
                self.by_e.get(&k).unwrap_or(&none).iter().for_each(|i| check(&self.datoms[*i]));
            } else if let Some(k) = key(1) {
                self.by_a.get(&k).unwrap_or(&none).iter().for_each(|i| check(&self.datoms[*i]));
            } else {
                self.datoms.iter().for_each(|d| check(d));
            }
        }
        out
    }
    fn ground(&self, t: &T, refs: bool) -> u32 {
        match t {
            T::Int(i) => self.look(if refs { V::Ref(*i) } else { V::Long(*i) }),
            T::Id(k) => match self.idents.get(k) {
                Some(e) if refs => self.look(V::Ref(*e)),
                _ => self.look(V::Kw(k.clone())),
            },
            T::C(v) => self.look(v.clone()),
            _ => 0,
        }
    }
    fn relation(&self, p: &[Option<usize>], data: &[Vec<T>], rows: &[Row], r: Reading) -> Vec<Row> {
        let mut out = vec![];
        for row in rows {
            'next: for d in data {
                let mut n = *row;
                for (p, t) in p.iter().zip(d) {
                    if let Some(x) = p {
                        let v = self.ground(t, r.ground_refs >> *x & 1 == 1);
                        if n[*x] == 0 {
                            n[*x] = v;
                        } else if n[*x] != v {
                            continue 'next;
                        }
                    }
                }
                out.push(n);
            }
        }
        out
    }
    fn compare(&self, op: &str, a: &T, b: &T, row: &Row) -> Res<bool> {
        let get = |t: &T| -> Res<Option<V>> {
            Ok(match t {
                T::Var(i) if row[*i] == 0 => return Err(Unbound),
                T::Var(i) => Some(self.vals[row[*i] as usize].clone()),
                T::Int(i) => Some(match op {
                    "<" | ">" | "<=" | ">=" | "!=" => V::Long(*i),
                    _ => V::Ref(*i),
                }),
                T::Id(k) => self.idents.get(k).map(|e| V::Ref(*e)),
                T::C(v) => Some(v.clone()),
                T::Blank => None,
            })
        };
        let (a, b) = match (get(a)?, get(b)?) {
            (Some(a), Some(b)) => (a, b),
            _ => return Ok(false),
        };
        use std::cmp::Ordering::*;
        let num = |v: &V| match v {
            V::Long(l) => Some((*l, None)),
            V::Dbl(b) => Some((0, Some(f64::from_bits(*b)))),
            _ => None,
        };
        let ord = match op {
            "<" | ">" | "<=" | ">=" | "!=" => match (&a, &b) {
                (V::Inst(a), V::Inst(b)) => Some(a.cmp(b)),
                (a, b) => match (num(a), num(b)) {
                    (Some((x, None)), Some((y, None))) => Some(x.cmp(&y)),
                    (Some((x, fx)), Some((y, fy))) => fx.unwrap_or(x as f64).partial_cmp(&fy.unwrap_or(y as f64)),
                    _ => None,
                },
            },
            _ => match (&a, &b) {
                (V::Ref(a), V::Ref(b)) => Some(a.cmp(b)),
                _ => None,
            },
        };
        Ok(match (op, ord) {
            (_, None) => false,
            ("<", Some(o)) | ("unpermute", Some(o)) | ("tx-before", Some(o)) => o == Less,
            (">", Some(o)) | ("tx-after", Some(o)) => o == Greater,
            ("<=", Some(o)) => o != Greater,
            (">=", Some(o)) => o != Less,
            ("!=", Some(o)) | ("differ", Some(o)) => o != Equal,
            _ => panic!("operator"),
        })
    }
    fn has_type(&self, v: u32, t: &str) -> bool {
        t == match self.vals[v as usize] {
            V::Ref(_) => "ref",
            V::Bool(_) => "boolean",
            V::Inst(_) => "instant",
            V::Long(_) => "long",
            V::Dbl(_) => "double",
            V::Str(_) => "string",
            V::Kw(_) => "keyword",
            V::Uuid(_) => "uuid",
            V::Bad(_) => "bad",
        }
    }
    fn dedup(mut rows: Vec<Row>) -> Vec<Row> {
        rows.sort_unstable();
        rows.dedup();
        rows
    }
    /// All ways to extend the rows so that every clause holds.
    pub fn eval(&self, cls: &[Cl], rows: Vec<Row>, r: Reading) -> Res<Vec<Row>> {
        let mut rows = rows;
        // Ground values first (they are few), then patterns, those with constants first, then the rest.
        let rank = |c: &Cl| match c {
            Cl::Scalar(..) | Cl::Coll(..) | Cl::Tuple(..) | Cl::Rel(..) => 0,
            Cl::Pat(e, a, v, _) => {
                if let T::Int(_) | T::Id(_) = a {
                    2
                } else if let T::Var(_) | T::Blank = e {
                    if let T::Var(_) | T::Blank = v {
                        3
                    } else {
                        2
                    }
                } else {
                    1
                }
            }
            Cl::Or(_) | Cl::OrJoin(..) => 4,
            Cl::Type(..) | Cl::Cmp(..) => 5,
            Cl::Not(_) | Cl::NotJoin(..) => 6,
        };
        let mut order: Vec<&Cl> = cls.iter().collect();
        order.sort_by_key(|c| rank(c));
        for c in order {
            rows = match c {
                Cl::Pat(e, a, v, t) => self.pattern((e, a, v, t), &rows, r),
                Cl::Scalar(x, t) => self.relation(&[Some(*x)], &[vec![t.clone()]], &rows, r),
                Cl::Coll(x, t) => self.relation(&[Some(*x)], &t.iter().map(|t| vec![t.clone()]).collect::<Vec<_>>(), &rows, r),
                Cl::Tuple(p, t) => self.relation(p, &[t.clone()], &rows, r),
                Cl::Rel(p, d) => self.relation(p, d, &rows, r),
                Cl::Or(arms) => {
                    let mut out = vec![];
                    for a in arms {
                        out.extend(self.eval(a, rows.clone(), r)?);
                    }
                    Self::dedup(out)
                }
                Cl::OrJoin(vs, arms) => {
                    let mut out = vec![];
                    let mut memo: BTreeMap<Row, Vec<Row>> = BTreeMap::new();
                    for row in &rows {
                        let mut inner = [0; NV];
                        vs.iter().for_each(|v| inner[*v] = row[*v]);
                        if !memo.contains_key(&inner) {
                            let mut found = vec![];
                            for a in arms {
                                found.extend(self.eval(a, vec![inner], r)?.into_iter().map(|f| {
                                    let mut k = [0; NV];
                                    vs.iter().for_each(|v| k[*v] = f[*v]);
                                    k
                                }));
                            }
                            memo.insert(inner, Self::dedup(found));
                        }
                        for f in &memo[&inner] {
                            let mut n = *row;
                            vs.iter().for_each(|v| n[*v] = f[*v]);
                            out.push(n);
                        }
                    }
                    Self::dedup(out)
                }
                Cl::Cmp(op, a, b) => {
                    let mut out = vec![];
                    for row in rows {
                        if self.compare(op, a, b, &row)? {
                            out.push(row);
                        }
                    }
                    out
                }
                Cl::Type(x, t) => {
                    let mut out = vec![];
                    for row in rows {
                        if row[*x] == 0 {
                            return Err(Unbound);
                        }
                        if self.has_type(row[*x], t) {
                            out.push(row);
                        }
                    }
                    out
                }
                Cl::Not(inner) => self.without(&mentioned(inner), inner, rows, r)?,
                Cl::NotJoin(vs, inner) => self.without(&vs.iter().cloned().collect(), inner, rows, r)?,
            };
            if rows.is_empty() {
                return Ok(rows);
            }
        }
        Ok(Self::dedup(rows))
    }
    fn without(&self, vs: &BTreeSet<usize>, inner: &[Cl], rows: Vec<Row>, r: Reading) -> Res<Vec<Row>> {
        let mut memo: HashMap<Row, bool> = HashMap::new();
        let mut out = vec![];
        for row in rows {
            let mut k = [0; NV];
            for v in vs {
                if row[*v] == 0 {
                    return Err(Unbound);
                }
                k[*v] = row[*v];
            }
            let holds = match memo.get(&k) {
                Some(b) => *b,
                None => {
                    let b = !self.eval(inner, vec![k], r)?.is_empty();
                    memo.insert(k, b);
                    b
                }
            };
            if !holds {
                out.push(row);
            }
        }
        Ok(out)
    }
    pub fn answers(&self, cls: &[Cl], find: &[usize], r: Reading) -> Res<BTreeSet<Vec<u32>>> {
        let rows = self.eval(cls, vec![[0; NV]], r)?;
        Ok(rows.iter().map(|row| find.iter().map(|v| row[*v]).collect()).collect())
    }
    /// The readings worth distinguishing for these clauses.
    pub fn readings(cls: &[Cl]) -> Vec<Reading> {
        fn scan(cls: &[Cl], ints: &mut bool, kws: &mut bool, ground: &mut u32) {
            for c in cls {
                match c {
                    Cl::Pat(_, a, v, _) => {
                        if let T::Int(_) = v {
                            *ints = true;
                        }
                        if let (T::Id(_), T::Var(_)) | (T::Id(_), T::Blank) = (v, a) {
                            *kws = true;
                        }
                    }
                    Cl::Or(a) | Cl::OrJoin(_, a) => a.iter().for_each(|c| scan(c, ints, kws, ground)),
                    Cl::Not(c) | Cl::NotJoin(_, c) => scan(c, ints, kws, ground),
                    Cl::Scalar(v, _) | Cl::Coll(v, _) => *ground |= 1 << v,
                    Cl::Tuple(v, _) | Cl::Rel(v, _) => v.iter().flatten().for_each(|v| *ground |= 1 << v),
                    _ => {}
                }
            }
        }
        let (mut i, mut k, mut g) = (false, false, 0);
        scan(cls, &mut i, &mut k, &mut g);
        let mut out = vec![];
        for &wide_ints in if i { &[false, true][..] } else { &[false][..] } {
            for &kw_refs in if k { &[false, true][..] } else { &[false][..] } {
                for ground_refs in (0..1 << NV as u32).filter(|m| m & !g == 0) {
                    out.push(Reading { wide_ints, kw_refs, ground_refs });
                }
            }
        }
        out
    }
}

/// Whether the clauses break a rule of the language.
pub fn malformed(cls: &[Cl]) -> bool {
    cls.iter().any(|c| match c {
        Cl::Or(a) => {
            let m: Vec<_> = a.iter().map(|c| mentioned(c)).collect();
            m.windows(2).any(|w| w[0] != w[1]) || a.iter().any(|c| malformed(c))
        }
        Cl::OrJoin(v, a) => a.iter().any(|c| !v.iter().all(|x| mentioned(c).contains(x)) || malformed(c)),
        Cl::Not(c) => malformed(c),
        Cl::NotJoin(v, c) => !v.iter().all(|x| mentioned(c).contains(x)) || malformed(c),
        _ => false,
    })
}

/// May the query be refused, given what is bound before it?
pub fn may_refuse(w: &World, cls: &[Cl], outer: &BTreeSet<usize>) -> bool {
    refusable(w, cls, outer, &[])
}

fn refusable(w: &World, cls: &[Cl], outer: &BTreeSet<usize>, around: &[Cl]) -> bool {
    let scope: Vec<Cl> = around.iter().chain(cls).cloned().collect();
    // Types fixed by patterns with a known attribute anywhere in scope, or by the place.
    let mut typed: BTreeSet<usize> = BTreeSet::new();
    for c in &scope {
        match c {
            Cl::Pat(e, a, v, t) => {
                for x in [e, a, t].iter() {
                    if let T::Var(i) = x {
                        typed.insert(*i);
                    }
                }
                if let (T::Int(_), T::Var(i)) | (T::Id(_), T::Var(i)) = (a, v) {
                    typed.insert(*i);
                }
            }
            Cl::Type(v, _) => {
                typed.insert(*v);
            }
            Cl::Scalar(v, _) | Cl::Coll(v, _) => {
                typed.insert(*v);
            }
            Cl::Tuple(p, _) | Cl::Rel(p, _) => typed.extend(p.iter().flatten()),
            _ => {}
        }
    }
    let mut bound = outer.clone();
    for c in cls {
        match c {
            Cl::Cmp(op, a, b) => {
                let var = |t: &T| if let T::Var(i) = t { Some(*i) } else { None };
                for i in [var(a), var(b)].iter().flatten() {
                    if !bound.contains(i) {
                        return true;
                    }
                }
                // Of two variables of unknown type, or two constants, the kind of comparison is unknown.
                let open = |t: &T| match t {
                    T::Var(i) => !typed.contains(i),
                    _ => false,
                };
                if open(a) || open(b) {
                    if !matches!((a, b), (T::Var(_), T::Int(_)) | (T::Var(_), T::C(V::Dbl(_))) | (T::Var(_), T::C(V::Inst(_))) | (T::Int(_), T::Var(_)) | (T::C(V::Dbl(_)), T::Var(_)) | (T::C(V::Inst(_)), T::Var(_))) {
                        return true;
                    }
                }
                if unordered(w, &scope, op, a) || unordered(w, &scope, op, b) {
                    return true;
                }
            }
            Cl::Not(inner) => {
                if mentioned(inner).iter().any(|v| !bound.contains(v)) || refusable(w, inner, &bound, &scope) {
                    return true;
                }
            }
            Cl::NotJoin(vs, inner) => {
                let b: BTreeSet<usize> = vs.iter().cloned().collect();
                if vs.iter().any(|v| !bound.contains(v)) || refusable(w, inner, &b, &scope) {
                    return true;
                }
            }
            Cl::Or(arms) | Cl::OrJoin(_, arms) => {
                // What is bound outside is not visible to comparisons and negations inside.
                if arms.iter().any(|a| refusable(w, a, &BTreeSet::new(), &scope)) {
                    return true;
                }
            }
            // The values of a column have to be of one type.
            Cl::Coll(..) | Cl::Rel(..) => {
                let columns: Vec<Vec<&T>> = match c {
                    Cl::Coll(_, l) => vec![l.iter().collect()],
                    Cl::Rel(p, rows) => (0..p.len()).filter(|i| p[*i].is_some()).map(|i| rows.iter().map(|r| &r[i]).collect()).collect(),
                    _ => vec![],
                };
                let kind = |t: &T| match t {
                    T::Int(_) => 0,
                    T::Id(_) => 1,
                    T::C(V::Bool(_)) => 2,
                    T::C(V::Dbl(_)) => 3,
                    T::C(V::Str(_)) => 4,
                    T::C(V::Inst(_)) => 5,
                    _ => 6,
                };
                if columns.iter().any(|l| l.iter().any(|t| kind(t) != kind(l[0]))) {
                    return true;
                }
            }
            Cl::Type(v, _) => {
                if !outer.contains(v) && !binds(cls).contains(v) {
                    return true;
                }
            }
            _ => {}
        }
        bound.extend(c.binds());
    }
    false
}

/// Is the argument of a type that has no order (or, for the operators on entities, not an entity)?
fn unordered(w: &World, cls: &[Cl], op: &str, t: &T) -> bool {
    let ordering = ["<", ">", "<=", ">=", "!="].contains(&op);
    let bad = |ty: &str| if ordering { !["long", "double", "instant"].contains(&ty) } else { ty != "ref" };
    let literal = |t: &T| match t {
        T::Int(_) => false,
        T::Id(k) => ordering || !w.idents.contains_key(k),
        T::C(V::Dbl(_)) => bad("double"),
        T::C(V::Inst(_)) => bad("instant"),
        T::C(_) => true,
        _ => false,
    };
    // A ground integer or keyword may have been taken for a number or a keyword.
    let ground = |t: &T| matches!(t, T::Int(_) | T::Id(_)) && !ordering || literal(t);
    let x = match t {
        T::Var(i) => T::Var(*i),
        t => return literal(t),
    };
    cls.iter().any(|c| match c {
        Cl::Pat(e, a, v, tx) => {
            if *e == x || *a == x || *tx == x {
                return bad("ref");
            }
            let attr = match a {
                T::Int(i) => Some(*i),
                T::Id(k) => w.idents.get(k).cloned(),
                // The attribute may be grounded.
                T::Var(a) => cls.iter().find_map(|c| match c {
                    Cl::Scalar(g, T::Id(k)) if g == a => w.idents.get(k).cloned(),
                    _ => None,
                }),
                _ => None,
            };
            *v == x && attr.and_then(|a| w.attrs.get(&a)).map_or(false, |t| bad(t))
        }
        Cl::Type(v, t) => T::Var(*v) == x && bad(t),
        Cl::Scalar(v, l) => T::Var(*v) == x && ground(l),
        Cl::Coll(v, l) => T::Var(*v) == x && l.iter().any(|l| ground(l)),
        Cl::Tuple(p, l) => p.iter().zip(l).any(|(p, l)| p.map(T::Var).as_ref() == Some(&x) && ground(l)),
        Cl::Rel(p, r) => r.iter().any(|l| p.iter().zip(l).any(|(p, l)| p.map(T::Var).as_ref() == Some(&x) && ground(l))),
        Cl::Or(a) | Cl::OrJoin(_, a) => a.iter().any(|c| unordered(w, c, op, t)),
        _ => false,
    })
}

/// Every way to read an answer gives the same.
pub fn access(o: &mentat::QueryOutput) -> Result<(), String> {
    use mentat::{Binding, QueryResults};
    use mentat_query_projector::BindingTuple;
    let width = o.spec.expected_column_count();
    let rows: Vec<Vec<Binding>> = match o.results {
        QueryResults::Scalar(ref s) => s.iter().map(|b| vec![b.clone()]).collect(),
        QueryResults::Tuple(ref t) => t.iter().cloned().collect(),
        QueryResults::Coll(ref c) => c.iter().map(|b| vec![b.clone()]).collect(),
        QueryResults::Rel(ref r) => r.values.chunks(width.max(1)).map(|c| c.to_vec()).collect(),
    };
    if o.spec.columns().count() != width {
        return Err(format!("{} columns instead of {}", o.spec.columns().count(), width));
    }
    if o.len() != rows.len() || o.results.len() != rows.len() || o.is_empty() != rows.is_empty() || o.results.is_empty() != rows.is_empty() {
        return Err(format!("its length is {}, {:?}", o.len(), rows));
    }
    let same = |what: &str, got: Option<Vec<Vec<Binding>>>, is: bool| match got {
        Some(ref g) if is && *g == rows => Ok(()),
        None if !is => Ok(()),
        g => Err(format!("{} of {:?} gives {:?}", what, o.results, g)),
    };
    let (sc, tu, co, re) = match o.results {
        QueryResults::Scalar(_) => (true, false, false, false),
        QueryResults::Tuple(_) => (false, true, false, false),
        QueryResults::Coll(_) => (false, false, true, false),
        QueryResults::Rel(_) => (false, false, false, true),
    };
    let one = |b: Option<Binding>| b.into_iter().map(|b| vec![b]).collect::<Vec<_>>();
    same("into_scalar", o.clone().into_scalar().ok().map(one), sc)?;
    same("results.into_scalar", o.results.clone().into_scalar().ok().map(one), sc)?;
    same("into_coll", o.clone().into_coll().ok().map(|c| c.into_iter().map(|b| vec![b]).collect()), co)?;
    same("results.into_coll", o.results.clone().into_coll().ok().map(|c| c.into_iter().map(|b| vec![b]).collect()), co)?;
    same("results.into_tuple", o.results.clone().into_tuple().ok().map(|t| t.into_iter().collect()), tu)?;
    fn tuple<B: BindingTuple>(o: &mentat::QueryOutput, f: fn(B) -> Vec<Binding>) -> Option<Vec<Vec<Binding>>> {
        o.clone().into_tuple::<B>().ok().map(|t| t.into_iter().map(f).collect())
    }
    same("into_tuple of a vector", tuple::<Vec<Binding>>(o, |t| t), tu)?;
    type B = Binding;
    same("into_tuple of 1", tuple::<(B,)>(o, |t| vec![t.0]), tu && width == 1)?;
    same("into_tuple of 2", tuple::<(B, B)>(o, |t| vec![t.0, t.1]), tu && width == 2)?;
    same("into_tuple of 3", tuple::<(B, B, B)>(o, |t| vec![t.0, t.1, t.2]), tu && width == 3)?;
    same("into_tuple of 4", tuple::<(B, B, B, B)>(o, |t| vec![t.0, t.1, t.2, t.3]), tu && width == 4)?;
    same("into_tuple of 5", tuple::<(B, B, B, B, B)>(o, |t| vec![t.0, t.1, t.2, t.3, t.4]), tu && width == 5)?;
    same("into_tuple of 6", tuple::<(B, B, B, B, B, B)>(o, |t| vec![t.0, t.1, t.2, t.3, t.4, t.5]), tu && width == 6)?;
    same("into_rel", o.clone().into_rel().ok().map(|r| r.into_iter().collect()), re)?;
    same("results.into_rel", o.results.clone().into_rel().ok().map(|r| r.rows().map(|r| r.to_vec()).collect()), re)?;
    if let QueryResults::Rel(ref r) = o.results {
        if r.width != width || r.row_count() != rows.len() || r.is_empty() != rows.is_empty() {
            return Err(format!("{} rows of {} instead of {} of {}", r.row_count(), r.width, rows.len(), width));
        }
        for i in 0..rows.len() + 2 {
            if r.row(i).map(|r| r.to_vec()) != rows.get(i).cloned() {
                return Err(format!("row {} is {:?} instead of {:?}", i, r.row(i), rows.get(i)));
            }
        }
    }
    Ok(())
}
