//! C02: every notation has the effect of the flat terms it abbreviates.
use crate::h::*;
use crate::model::*;
use crate::val::V;
use crate::world::World;
use std::collections::BTreeMap;

/// An entity place.
#[derive(Clone, Debug, PartialEq)]
enum EP {
    Id(i64),
    /// An ident and the entity it names, if any.
    Ident(&'static str, Option<i64>),
    Tmp(&'static str),
    Look(&'static str, V),
    Tx,
    /// An entid that was never allocated.
    Unalloc(i64),
    BadFn,
}

/// A value place.
#[derive(Clone, Debug, PartialEq)]
enum VP {
    Ent(EP),
    Val(V),
    Vec(Vec<VP>),
    Map(Option<EP>, Vec<(Key, VP)>),
}

#[derive(Clone, Debug, PartialEq)]
struct Key {
    attr: &'static str,
    rev: bool,
    /// Written as an entid instead of an ident.
    num: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Form {
    Flat(bool, EP, Key, VP),
    /// [:db/add <value place> :a/_b <entity place>]
    Rev(bool, VP, &'static str, EP),
    Map(Option<EP>, Vec<(Key, VP)>),
}

struct W {
    w: World,
}

impl W {
    fn key(&self, k: &Key) -> String {
        if k.num {
            self.w.a(k.attr).to_string()
        } else if k.rev {
            let i = k.attr.find('/').unwrap();
            format!(":{}/_{}", &k.attr[..i], &k.attr[i + 1..])
        } else {
            format!(":{}", k.attr)
        }
    }
    fn ep(&self, e: &EP) -> String {
        match e {
            EP::Id(i) | EP::Unalloc(i) => i.to_string(),
            EP::Ident(s, _) => format!(":{}", s),
            EP::Tmp(s) => format!("\"{}\"", s),
            EP::Look(a, v) => format!("(lookup-ref :{} {})", a, v.edn()),
            EP::Tx => "(transaction-tx)".into(),
            EP::BadFn => "(no-such-function)".into(),
        }
    }
    fn vp(&self, v: &VP) -> String {
        match v {
            VP::Ent(e) => self.ep(e),
            VP::Val(v) => v.edn(),
            VP::Vec(vs) => format!("[{}]", vs.iter().map(|v| self.vp(v)).collect::<Vec<_>>().join(" ")),
            VP::Map(id, kvs) => self.map(id, kvs),
        }
    }
    fn map(&self, id: &Option<EP>, kvs: &[(Key, VP)]) -> String {
        let mut parts = vec![];
        if let Some(e) = id {
            parts.push(format!(":db/id {}", self.ep(e)));
        }
        for (k, v) in kvs {
            parts.push(format!("{} {}", self.key(k), self.vp(v)));
        }
        format!("{{{}}}", parts.join(" "))
    }
    fn form(&self, f: &Form) -> String {
        match f {
            Form::Flat(add, e, k, v) => format!("[:db/{} {} {} {}]", if *add { "add" } else { "retract" }, self.ep(e), self.key(k), self.vp(v)),
            Form::Rev(add, v, a, e) => format!("[:db/{} {} {} {}]", if *add { "add" } else { "retract" }, self.vp(v), self.key(&Key { attr: a, rev: true, num: false }), self.ep(e)),
            Form::Map(id, kvs) => self.map(id, kvs),
        }
    }

    // The meaning of each form, as flat terms.
    fn e(&self, e: &EP) -> Result<E, Reject> {
        Ok(match e {
            EP::Id(i) => E::Id(*i),
            EP::Ident(_, i) => E::Id(i.ok_or(Reject::Unknown)?),
            EP::Tmp(s) => E::Tmp(s.to_string()),
            EP::Look(a, v) => {
                let attr = self.w.m.attr(self.w.a(a));
                if attr.uniq == Uniq::No {
                    return Err(Reject::Notation);
                }
                E::Look(self.w.a(a), v.clone())
            }
            EP::Tx => E::Tx,
            EP::Unalloc(_) => return Err(Reject::Unknown),
            EP::BadFn => return Err(Reject::Notation),
        })
    }
    fn flat(&self, add: bool, e: &E, attr: &'static str, v: &VP, n: &mut usize, out: &mut Vec<T>) -> Result<(), Reject> {
        let a = self.w.a(attr);
        let at = self.w.m.attr(a).clone();
        match v {
            VP::Ent(p) => {
                if at.vt != Vt::Ref {
                    // A quoted string is a tempid only where an entity is expected.
                    return match p {
                        EP::Tmp(s) if at.vt == Vt::Str => {
                            out.push(t(add, e.clone(), a, X::Val(V::s(s))));
                            Ok(())
                        }
                        // Here an integer is just a number.
                        EP::Id(i) | EP::Unalloc(i) if at.vt == Vt::Long => {
                            out.push(t(add, e.clone(), a, X::Val(V::Long(*i))));
                            Ok(())
                        }
                        _ => Err(Reject::Type),
                    };
                }
                let x = match self.e(p)? {
                    E::Id(i) => X::Val(V::Ref(i)),
                    E::Tmp(s) => X::Tmp(s),
                    E::Look(a, v) => X::Look(a, v),
                    E::Tx => X::Tx,
                };
                out.push(t(add, e.clone(), a, x));
            }
            // Where an entity is expected an integer is an entid.
            VP::Val(V::Long(i)) if at.vt == Vt::Ref => out.push(t(add, e.clone(), a, X::Val(V::Ref(*i)))),
            VP::Val(v) => {
                if Vt::of(v) != Some(at.vt) {
                    return Err(Reject::Type);
                }
                out.push(t(add, e.clone(), a, X::Val(v.clone())));
            }
            VP::Vec(vs) => {
                if !at.many {
                    return Err(Reject::Notation);
                }
                for v in vs {
                    self.flat(add, e, attr, v, n, out)?;
                }
            }
            VP::Map(id, kvs) => {
                if !add || at.vt != Vt::Ref {
                    return Err(Reject::Notation);
                }
                // Must be reachable: named, a component, identified, or referred to.
                let reachable = id.is_some() || at.component || kvs.iter().any(|(k, _)| k.rev || self.w.m.attr(self.w.a(k.attr)).uniq == Uniq::Identity);
                if !reachable {
                    return Err(Reject::Notation);
                }
                let inner = self.map_terms(id, kvs, n, out)?;
                let x = match inner {
                    E::Id(i) => X::Val(V::Ref(i)),
                    E::Tmp(s) => X::Tmp(s),
                    E::Look(a, v) => X::Look(a, v),
                    E::Tx => X::Tx,
                };
                out.push(t(true, e.clone(), a, x));
            }
        }
        Ok(())
    }
    fn map_terms(&self, id: &Option<EP>, kvs: &[(Key, VP)], n: &mut usize, out: &mut Vec<T>) -> Result<E, Reject> {
        let e = match id {
            Some(p) => self.e(p)?,
            None => {
                *n += 1;
                E::Tmp(format!("_{}", n))
            }
        };
        for (k, v) in kvs {
            if k.rev {
                if self.w.m.attr(self.w.a(k.attr)).vt != Vt::Ref {
                    return Err(Reject::Notation);
                }
                match v {
                    VP::Ent(p) => {
                        let x = match &e {
                            E::Id(i) => X::Val(V::Ref(*i)),
                            E::Tmp(s) => X::Tmp(s.clone()),
                            E::Look(a, v) => X::Look(*a, v.clone()),
                            E::Tx => X::Tx,
                        };
                        out.push(t(true, self.e(p)?, self.w.a(k.attr), x));
                    }
                    VP::Val(V::Long(i)) => {
                        let x = match &e {
                            E::Id(i) => X::Val(V::Ref(*i)),
                            E::Tmp(s) => X::Tmp(s.clone()),
                            E::Look(a, v) => X::Look(*a, v.clone()),
                            E::Tx => X::Tx,
                        };
                        out.push(t(true, E::Id(*i), self.w.a(k.attr), x));
                    }
                    VP::Val(_) => return Err(Reject::Type),
                    VP::Vec(_) | VP::Map(..) => return Err(Reject::Notation),
                }
            } else {
                self.flat(true, &e, k.attr, v, n, out)?;
            }
        }
        Ok(e)
    }
    fn meaning(&self, fs: &[&Form]) -> Result<Vec<T>, Reject> {
        let mut out = vec![];
        let mut n = 0;
        for f in fs {
            match f {
                Form::Flat(add, e, k, v) => {
                    let e = self.e(e)?;
                    self.flat(*add, &e, k.attr, v, &mut n, &mut out)?;
                }
                Form::Rev(add, v, a, e) => {
                    let e = self.e(e)?;
                    self.flat(*add, &e, a, v, &mut n, &mut out)?;
                }
                Form::Map(id, kvs) => {
                    // A map that says nothing about its entity means nothing.
                    if kvs.iter().all(|(_, v)| v == &VP::Vec(vec![])) {
                        continue;
                    }
                    self.map_terms(id, kvs, &mut n, &mut out)?;
                }
            }
        }
        Ok(out)
    }
}

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every transaction made of one form (and every pair from a reduced set) of a notation grammar is run on the real store from each start state; its verdict, datoms, log and report are compared with the effect the model computes for the flat terms the notation abbreviates; builder-made terms likewise. Outcomes: distinct (state, form class, verdict, delta)",
        bounds: "2 named entities, an ident, a schema of 9 attributes; entity places: entid, ident, tempid, lookup ref (found, missing, on a non-unique attribute, indexed or not), transaction function, unallocated entid, unknown ident; value places: those plus atoms, vectors of up to 2, nested maps of up to 2 pairs (3 levels deep in the thorough tier); maps of up to 2 pairs at top level; 2 start states",
        assumptions: vec!["duplicate keys within one map notation are not written", "effects of flat terms are decided by C01/C03"],
    }
}

fn worlds() -> Vec<(World, i64, i64, i64)> {
    let attrs = vec![
        at("t/r1", Vt::Ref, false),
        at("t/rm", Vt::Ref, true),
        at("t/cm", Vt::Ref, true).comp(),
        at("t/l1", Vt::Long, false),
        at("t/lm", Vt::Long, true),
        at("t/id", Vt::Str, false).uniq(Uniq::Identity),
        at("t/uv", Vt::Long, false).uniq(Uniq::Value),
        at("t/ix", Vt::Long, false).idx(),
        at("t/ur", Vt::Ref, false).uniq(Uniq::Value),
    ];
    let (mut w, es) = World::new(&attrs, 2);
    let id = w.a("t/id");
    w.step(&[t(true, E::Id(es[0]), id, X::Val(V::s("a"))), t(true, E::Id(es[1]), id, X::Val(V::s("b")))], &format!("[[:db/add {} :t/id \"a\"][:db/add {} :t/id \"b\"]]", es[0], es[1])).unwrap();
    let r = w.db.must("[{:db/id \"x\" :db/ident :t/ent}]");
    let ent = r.tempids["x"];
    w.m.datoms = w.db.datoms();
    w.log = w.db.log();
    let mut w2 = w.fork();
    let (r1, rm, lm, l1, uv) = (w.a("t/r1"), w.a("t/rm"), w.a("t/lm"), w.a("t/l1"), w.a("t/uv"));
    let ts = vec![
        t(true, E::Id(es[0]), r1, X::Val(V::Ref(es[1]))),
        t(true, E::Id(es[0]), rm, X::Val(V::Ref(es[0]))),
        t(true, E::Id(es[1]), rm, X::Val(V::Ref(ent))),
        t(true, E::Id(es[0]), lm, X::Val(V::Long(1))),
        t(true, E::Id(es[0]), l1, X::Val(V::Long(2))),
        t(true, E::Id(es[1]), uv, X::Val(V::Long(7))),
        t(true, E::Id(es[1]), w.a("t/ix"), X::Val(V::Long(2))),
    ];
    let edn = w2.m.tx_edn(&ts);
    w2.step(&ts, &edn).unwrap();
    vec![(w, es[0], es[1], ent), (w2, es[0], es[1], ent)]
}

fn k(attr: &'static str) -> Key {
    Key { attr, rev: false, num: false }
}
fn kr(attr: &'static str) -> Key {
    Key { attr, rev: true, num: false }
}

fn run_forms(ctx: &Ctx, base: &World, si: usize, group: &str, forms: &[Vec<Form>]) {
    crate::world::par(ctx, base, forms.len(), |base, i| {
        let f = &forms[i];
        let x = W { w: base.fork() };
        let refs: Vec<&Form> = f.iter().collect();
        let edn = format!("[{}]", f.iter().map(|f| x.form(f)).collect::<Vec<_>>().join(" "));
        let case = format!("s{}|{}", si, edn);
        if !ctx.want(&case) {
            return;
        }
        let want = x.meaning(&refs);
        let mut w = x.w;
        ctx.transition(1);
        ctx.count(group, 1);
        let r = match &want {
            Ok(ts) => w.step_with(Ok(ts), &edn, |db| db.transact(&edn)),
            Err(e) => w.step_with(Err(e.clone()), &edn, |db| db.transact(&edn)),
        };
        match r {
            Ok(acc) => {
                ctx.trace(1);
                ctx.outcome(&(si, group, acc, w.log.difference(&base.log).map(|l| (l.1.min(0x10000000), l.2, l.3.clone(), l.4)).collect::<Vec<_>>()));
                ctx.count(if acc { "accepted" } else { "refused" }, 1);
                ctx.sample(group, || format!("{} --> {}", edn, match &want { Ok(t) if acc => x_edn(base, t), Ok(_) => "refused by its flat terms".into(), Err(e) => format!("refused {:?}", e) }));
            }
            Err(d) => ctx.violation(format!("C02/{}/{}", group, hash(&case)), case, format!("start state {}\nmeaning {}\n{}", si, match &want { Ok(t) => x_edn(base, t), Err(e) => format!("not allowed: {:?}", e) }, d)),
        }
    });
}
fn x_edn(w: &World, t: &[T]) -> String {
    w.m.tx_edn(t)
}

pub fn run(ctx: &Ctx) {
    let ws = worlds();
    for (si, (w, e1, e2, ent)) in ws.iter().enumerate() {
        ctx.state(1);
        let (e1, e2, ent) = (*e1, *e2, *ent);
        let eps = vec![
            EP::Id(e1),
            EP::Id(e2),
            EP::Ident("t/ent", Some(ent)),
            EP::Ident("t/nosuch", None),
            EP::Tmp("x"),
            EP::Look("t/id", V::s("a")),
            EP::Look("t/id", V::s("zz")),
            EP::Look("t/uv", V::Long(7)),
            EP::Look("t/l1", V::Long(2)),
            EP::Look("t/ix", V::Long(2)),
            EP::Tx,
            EP::Unalloc(0x10000 + 5000),
            EP::BadFn,
        ];
        let veps: Vec<EP> = eps.iter().cloned().chain(vec![EP::Tmp("y")]).collect();
        let mut leafs: Vec<VP> = veps.iter().map(|e| VP::Ent(e.clone())).collect();
        leafs.extend(vec![VP::Val(V::Long(1)), VP::Val(V::Long(2)), VP::Val(V::Bool(true))]);
        // Nested maps.
        let inner_pairs: Vec<(Key, VP)> = vec![
            (k("t/id"), VP::Ent(EP::Tmp("a"))),
            (k("t/id"), VP::Ent(EP::Tmp("new"))),
            (k("t/l1"), VP::Val(V::Long(1))),
            (k("t/lm"), VP::Vec(vec![VP::Val(V::Long(1)), VP::Val(V::Long(2))])),
            (kr("t/rm"), VP::Ent(EP::Id(e2))),
            (kr("t/r1"), VP::Ent(EP::Tmp("x"))),
            (kr("t/rm"), VP::Vec(vec![VP::Ent(EP::Id(e2))])),
            (k("t/r1"), VP::Ent(EP::Tmp("x"))),
            (k("t/uv"), VP::Val(V::Long(7))),
            (k("t/nope"), VP::Val(V::Long(7))),
        ];
        let ok_attr = |p: &(Key, VP)| p.0.attr != "t/nope";
        let inner_pairs: Vec<(Key, VP)> = inner_pairs.into_iter().filter(ok_attr).collect();
        let ids: Vec<Option<EP>> = vec![None, Some(EP::Tmp("y")), Some(EP::Id(e2)), Some(EP::Look("t/id", V::s("b")))];
        let mut maps: Vec<VP> = vec![];
        for id in &ids {
            for s in subsets(inner_pairs.len(), 2) {
                let kvs: Vec<(Key, VP)> = s.iter().map(|i| inner_pairs[*i].clone()).collect();
                if kvs.len() == 2 && kvs[0].0 == kvs[1].0 {
                    continue;
                }
                maps.push(VP::Map(id.clone(), kvs));
            }
        }
        let deep: Vec<VP> = maps.iter().filter(|m| matches!(m, VP::Map(_, kv) if kv.len() <= 1)).flat_map(|m| {
            ids.iter().flat_map(move |id| vec![VP::Map(id.clone(), vec![(k("t/cm"), m.clone())]), VP::Map(id.clone(), vec![(k("t/r1"), m.clone())]), VP::Map(id.clone(), vec![(k("t/rm"), VP::Vec(vec![m.clone(), VP::Ent(EP::Tmp("x"))]))])])
        }).collect();
        let mut vecs: Vec<VP> = vec![VP::Vec(vec![])];
        for (i, a) in leafs.iter().enumerate() {
            vecs.push(VP::Vec(vec![a.clone()]));
            for b in &leafs[i..] {
                vecs.push(VP::Vec(vec![a.clone(), b.clone()]));
            }
        }
        for m in maps.iter().filter(|m| matches!(m, VP::Map(_, kv) if kv.len() <= 1)) {
            vecs.push(VP::Vec(vec![m.clone()]));
            vecs.push(VP::Vec(vec![m.clone(), VP::Ent(EP::Id(e1))]));
            vecs.push(VP::Vec(vec![m.clone(), VP::Map(None, vec![(k("t/id"), VP::Ent(EP::Tmp("b")))])]));
        }
        vecs.push(VP::Vec(vec![VP::Vec(vec![VP::Val(V::Long(1))]), VP::Val(V::Long(2))]));
        let attrs = ["t/r1", "t/rm", "t/cm", "t/l1", "t/lm", "t/id", "t/uv", "t/ur"];

        // 1. Flat forms.
        let mut g: Vec<Vec<Form>> = vec![];
        for add in [true, false] {
            for e in &eps {
                for a in attrs {
                    for v in leafs.iter() {
                        g.push(vec![Form::Flat(add, e.clone(), k(a), v.clone())]);
                    }
                }
            }
            for e in [EP::Id(e1), EP::Tmp("x"), EP::Look("t/id", V::s("a"))] {
                for a in attrs {
                    for v in vecs.iter().chain(maps.iter()) {
                        g.push(vec![Form::Flat(add, e.clone(), k(a), v.clone())]);
                    }
                    for v in leafs.iter() {
                        g.push(vec![Form::Flat(add, e.clone(), Key { attr: a, rev: false, num: true }, v.clone())]);
                    }
                }
                if add {
                    for v in deep.iter() {
                        g.push(vec![Form::Flat(add, e.clone(), k("t/cm"), v.clone())]);
                        if ctx.thorough {
                            g.push(vec![Form::Flat(add, e.clone(), k("t/r1"), v.clone())]);
                        }
                    }
                }
            }
        }
        run_forms(ctx, w, si, "flat", &g);

        // 2. Reversed forms.
        let mut g: Vec<Vec<Form>> = vec![];
        for add in [true, false] {
            for e in &eps {
                for a in ["t/r1", "t/rm", "t/cm"] {
                    for v in leafs.iter() {
                        g.push(vec![Form::Rev(add, v.clone(), a, e.clone())]);
                    }
                }
            }
            for e in [EP::Id(e1), EP::Tmp("x"), EP::Look("t/id", V::s("a"))] {
                for a in ["t/r1", "t/rm", "t/cm"] {
                    for v in vecs.iter().chain(maps.iter()) {
                        g.push(vec![Form::Rev(add, v.clone(), a, e.clone())]);
                    }
                }
            }
        }
        run_forms(ctx, w, si, "reversed", &g);

        // 3. Maps.
        let mut pairs: Vec<(Key, VP)> = vec![];
        for v in &leafs {
            for a in ["t/r1", "t/rm", "t/l1", "t/id", "t/uv"] {
                pairs.push((k(a), v.clone()));
            }
            for a in ["t/r1", "t/rm", "t/l1"] {
                pairs.push((kr(a), v.clone()));
            }
        }
        pairs.push((kr("t/r1"), VP::Ent(EP::Unalloc(0x10000 + 5000))));
        pairs.push((kr("t/rm"), VP::Vec(vec![VP::Ent(EP::Id(e2))])));
        pairs.push((kr("t/rm"), VP::Map(None, vec![(k("t/id"), VP::Ent(EP::Tmp("b")))])));
        pairs.push((k("t/lm"), VP::Vec(vec![VP::Val(V::Long(1)), VP::Val(V::Long(2))])));
        pairs.push((k("t/lm"), VP::Vec(vec![])));
        pairs.push((k("t/rm"), VP::Vec(vec![VP::Ent(EP::Tmp("x")), VP::Ent(EP::Id(e1))])));
        for m in maps.iter().filter(|m| matches!(m, VP::Map(_, kv) if kv.len() == 1)) {
            pairs.push((k("t/cm"), m.clone()));
            pairs.push((k("t/r1"), m.clone()));
        }
        let mut g: Vec<Vec<Form>> = vec![];
        let mids: Vec<Option<EP>> = std::iter::once(None).chain(eps.iter().cloned().map(Some)).collect();
        for id in &mids {
            g.push(vec![Form::Map(id.clone(), vec![])]);
            for p in &pairs {
                g.push(vec![Form::Map(id.clone(), vec![p.clone()])]);
            }
        }
        let mids2: Vec<Option<EP>> = if ctx.thorough { vec![None, Some(EP::Id(e1)), Some(EP::Tmp("x")), Some(EP::Look("t/id", V::s("a"))), Some(EP::Tx), Some(EP::Ident("t/ent", Some(ent)))] } else { vec![None, Some(EP::Tmp("x"))] };
        let small: Vec<&(Key, VP)> = if ctx.thorough { pairs.iter().collect() } else { pairs.iter().filter(|p| !matches!(&p.1, VP::Ent(EP::BadFn) | VP::Ent(EP::Ident("t/nosuch", _)) | VP::Val(V::Bool(_)))).collect() };
        for id in &mids2 {
            for s in subsets(small.len(), 2) {
                if s.len() == 2 && small[s[0]].0 != small[s[1]].0 {
                    g.push(vec![Form::Map(id.clone(), vec![small[s[0]].clone(), small[s[1]].clone()])]);
                }
            }
        }
        run_forms(ctx, w, si, "map", &g);

        // 4. Pairs of forms that share tempids.
        let mut some: Vec<Form> = vec![];
        for id in [None, Some(EP::Tmp("x")), Some(EP::Tmp("y")), Some(EP::Id(e1))] {
            for p in [
                (k("t/id"), VP::Ent(EP::Tmp("a"))),
                (k("t/id"), VP::Ent(EP::Tmp("new"))),
                (k("t/r1"), VP::Ent(EP::Tmp("x"))),
                (kr("t/rm"), VP::Ent(EP::Tmp("y"))),
                (k("t/rm"), VP::Vec(vec![VP::Ent(EP::Tmp("x")), VP::Ent(EP::Tmp("y"))])),
                (k("t/cm"), VP::Map(Some(EP::Tmp("x")), vec![(k("t/id"), VP::Ent(EP::Tmp("b")))])),
                (k("t/cm"), VP::Map(None, vec![(k("t/r1"), VP::Ent(EP::Tmp("y")))])),
                (k("t/r1"), VP::Map(None, vec![(k("t/id"), VP::Ent(EP::Tmp("new")))])),
            ] {
                some.push(Form::Map(id.clone(), vec![p]));
            }
        }
        for add in [true, false] {
            some.push(Form::Flat(add, EP::Tmp("x"), k("t/r1"), VP::Ent(EP::Tmp("y"))));
            some.push(Form::Flat(add, EP::Look("t/id", V::s("a")), k("t/rm"), VP::Ent(EP::Tmp("x"))));
            some.push(Form::Rev(add, VP::Ent(EP::Tmp("x")), "t/rm", EP::Tmp("y")));
            some.push(Form::Rev(add, VP::Ent(EP::Id(e1)), "t/rm", EP::Look("t/id", V::s("b"))));
            some.push(Form::Flat(add, EP::Tx, k("t/rm"), VP::Vec(vec![VP::Ent(EP::Tmp("y")), VP::Ent(EP::Tx)])));
            some.push(Form::Flat(add, EP::Tmp("y"), k("t/id"), VP::Ent(EP::Tmp("b"))));
            some.push(Form::Flat(add, EP::Id(e1), k("t/l1"), VP::Val(V::Long(2))));
        }
        let mut g: Vec<Vec<Form>> = vec![];
        for i in 0..some.len() {
            for j in 0..some.len() {
                if i != j {
                    g.push(vec![some[i].clone(), some[j].clone()]);
                }
            }
        }
        run_forms(ctx, w, si, "pairs", &g);
        if ctx.thorough {
            let mut g: Vec<Vec<Form>> = vec![];
            for s in subsets(some.len(), 3).into_iter().filter(|s| s.len() == 3) {
                g.push(s.iter().map(|i| some[*i].clone()).collect());
            }
            run_forms(ctx, w, si, "triples", &g);
        }
        builders(ctx, w, si, e1, e2, ent);
    }
}

const UNALLOCATED: i64 = 70_000_000;

/// The same flat terms, built with the programmatic builders.
fn builders(ctx: &Ctx, base: &World, si: usize, e1: i64, e2: i64, ent: i64) {
    use edn::entities::{EntidOrIdent, EntityPlace, TempId, ValuePlace};
    use core_traits::TypedValue;
    use mentat_transaction::entity_builder::{BuildTerms, TermBuilder};
    let mut terms: Vec<(T, bool, Option<&'static str>)> = vec![];
    let (r1, rm, l1, id) = (base.a("t/r1"), base.a("t/rm"), base.a("t/l1"), base.a("t/id"));
    for add in [true, false] {
        for e in [E::Id(e1), E::Tmp("x".into()), E::Look(id, V::s("a")), E::Tx, E::Id(ent)] {
            for v in [X::Val(V::Ref(e2)), X::Tmp("y".into()), X::Tmp("x".into()), X::Look(id, V::s("b")), X::Look(id, V::s("zz")), X::Tx] {
                for a in [r1, rm] {
                    terms.push((t(add, e.clone(), a, v.clone()), false, None));
                    terms.push((t(add, e.clone(), a, v.clone()), true, None));
                }
            }
            terms.push((t(add, e.clone(), l1, X::Val(V::Long(2))), false, None));
            terms.push((t(add, e.clone(), id, X::Val(V::s("a"))), false, None));
            terms.push((t(add, e.clone(), id, X::Val(V::s("new"))), false, None));
        }
    }
    let n = terms.len();
    // Ids that nobody has got are refused wherever they are.
    for add in [true, false] {
        for a in [r1, rm] {
            for rev in [false, true] {
                terms.push((t(add, E::Id(UNALLOCATED), a, X::Val(V::Ref(e2))), rev, None));
                terms.push((t(add, E::Tmp("x".into()), a, X::Val(V::Ref(UNALLOCATED))), rev, None));
                terms.push((t(add, E::Id(e1), a, X::Val(V::Ref(UNALLOCATED))), rev, Some("atom")));
            }
        }
        terms.push((t(add, E::Id(UNALLOCATED), l1, X::Val(V::Long(2))), false, None));
    }
    let mut jobs: Vec<Vec<usize>> = (0..terms.len()).map(|i| vec![i]).collect();
    jobs.extend((n..terms.len()).map(|i| vec![i % 3, i]));
    for i in 0..n {
        for j in 0..n {
            // Quick: pairs whose second term is an identity assertion or a reversed term.
            if i != j && (ctx.thorough || (terms[j].0.a == id && terms[j].0.add) || (terms[j].1 && !terms[j].0.add && terms[i].0.a == id)) {
                jobs.push(vec![i, j]);
            }
        }
    }
    crate::world::par(ctx, base, jobs.len(), |base, ji| {
        // How the terms are handed over: one transact_builder, the builder attached to the
        // transaction, or an entity builder per term.
        for how in 0..3 {
            let job = &jobs[ji];
            let ts: Vec<T> = job.iter().map(|i| terms[*i].0.clone()).collect();
            let label = format!("{} reversed={:?} how={}", base.m.tx_edn(&ts), job.iter().map(|i| terms[*i].1).collect::<Vec<_>>(), how);
            let case = format!("s{}|builder|{}", si, label);
            if !ctx.want(&case) || (!ctx.thorough && how > 0 && job.len() > 1) {
                continue;
            }
            let mut w = base.fork();
            let names: BTreeMap<i64, &'static str> = base.ids.iter().map(|(n, a)| (*a, *n)).collect();
            let ep = |e: &E, b: &mut TermBuilder| -> EntityPlace<TypedValue> {
                match e {
                    E::Id(i) if *i == ent => EntityPlace::Entid(EntidOrIdent::Ident(crate::val::kw("t/ent"))),
                    E::Id(i) => EntityPlace::Entid(EntidOrIdent::Entid(*i)),
                    E::Tmp(s) => EntityPlace::TempId(b.named_tempid(s.clone())),
                    E::Look(a, v) => EntityPlace::LookupRef(TermBuilder::lookup_ref(crate::val::kw(names[a]), v.to_typed())),
                    E::Tx => EntityPlace::TxFunction(TermBuilder::tx_function("transaction-tx")),
                }
            };
            let vp = |x: &X, b: &mut TermBuilder, atom: bool| -> ValuePlace<TypedValue> {
                match x {
                    X::Val(V::Ref(i)) if atom => ValuePlace::Atom(TypedValue::Ref(*i)),
                    X::Val(V::Ref(i)) => ValuePlace::Entid(EntidOrIdent::Entid(*i)),
                    X::Val(v) => ValuePlace::Atom(v.to_typed()),
                    X::Tmp(s) => ValuePlace::TempId(TempId::External(s.clone()).into()),
                    X::Look(a, v) => ValuePlace::LookupRef(TermBuilder::lookup_ref(crate::val::kw(names[a]), v.to_typed())),
                    X::Tx => {
                        let _ = b;
                        ValuePlace::TxFunction(TermBuilder::tx_function("transaction-tx"))
                    }
                }
            };
            // Reversed: swap places.
            let swap = |tm: &T| -> (E, X) {
                let e = match &tm.v {
                    X::Val(V::Ref(i)) => E::Id(*i),
                    X::Tmp(s) => E::Tmp(s.clone()),
                    X::Look(a, v) => E::Look(*a, v.clone()),
                    X::Tx => E::Tx,
                    _ => unreachable!(),
                };
                let v = match &tm.e {
                    E::Id(i) => X::Val(V::Ref(*i)),
                    E::Tmp(s) => X::Tmp(s.clone()),
                    E::Look(a, v) => X::Look(*a, v.clone()),
                    E::Tx => X::Tx,
                };
                (e, v)
            };
            ctx.transition(1);
            ctx.count("builder", 1);
            let none = ts.iter().any(|t| t.e == E::Id(UNALLOCATED) || t.v == X::Val(V::Ref(UNALLOCATED)));
            let r = w.step_with(if none { Err(Reject::Unknown) } else { Ok(&ts) }, &label, |db| {
                let mut b = TermBuilder::new();
                for i in job {
                    let (tm, rev, atom) = &terms[*i];
                    let name = names[&tm.a];
                    let p = name.find('/').unwrap();
                    let (key, e, v) = if *rev {
                        let (e, v) = swap(tm);
                        (crate::val::kw(&format!("{}/_{}", &name[..p], &name[p + 1..])), e, v)
                    } else {
                        (crate::val::kw(name), tm.e.clone(), tm.v.clone())
                    };
                    let (e, v) = (ep(&e, &mut b), vp(&v, &mut b, atom.is_some()));
                    if how == 2 {
                        let mut eb = b.describe(e);
                        if tm.add { eb.add(key, v) } else { eb.retract(key, v) }.map_err(|e| e.to_string())?;
                        b = eb.finish().0;
                    } else {
                        if tm.add { b.add(e, key, v) } else { b.retract(e, key, v) }.map_err(|e| e.to_string())?;
                    }
                }
                let (s, c) = (&mut db.sql, &mut db.conn);
                guard(|| -> Result<mentat::TxReport, String> {
                    let mut ip = c.begin_transaction(s).map_err(|e| e.to_string())?;
                    if how == 0 {
                        let r = ip.transact_builder(b).map_err(|e| e.to_string())?;
                        ip.commit().map_err(|e| e.to_string())?;
                        Ok(r)
                    } else {
                        let r = ip.transact_entities(b.build().map_err(|e| e.to_string())?.0).map_err(|e| e.to_string())?;
                        ip.commit().map_err(|e| e.to_string())?;
                        Ok(r)
                    }
                })
                .and_then(|r| r)
            });
            match r {
                Ok(acc) => {
                    ctx.trace(1);
                    ctx.outcome(&(si, "builder", acc, w.log.difference(&base.log).map(|l| (l.1, l.2, l.3.clone(), l.4)).collect::<Vec<_>>()));
                    ctx.sample("builder", || label.clone());
                }
                Err(d) => ctx.violation(format!("C02/builder/{}", hash(&case)), case, format!("start state {}\n{}", si, d)),
            }
        }
    });
}
