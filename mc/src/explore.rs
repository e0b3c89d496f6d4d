//! Explicit-state breadth-first search over the real store, parallel within a level.
use crate::h::Ctx;
use std::collections::BTreeSet;
use std::sync::Mutex;

pub trait St: Send + Sized {
    fn fork(&self) -> Self;
    /// Limit the variables of a statement: see `Db::limit`.
    fn limit(&self, _few: bool) {}
}
impl St for crate::db::Db {
    fn fork(&self) -> Self {
        crate::db::Db::fork(self)
    }
    fn limit(&self, few: bool) {
        crate::db::Db::limit(self, few)
    }
}
impl St for crate::world::World {
    fn fork(&self) -> Self {
        crate::world::World::fork(self)
    }
    fn limit(&self, few: bool) {
        self.db.limit(few)
    }
}

pub struct Search<'a> {
    pub name: &'a str,
    pub nops: usize,
    pub depth: usize,
    pub op_name: &'a (dyn Fn(usize) -> String + Sync),
}

/// From `base`, apply every operation in every state reachable by at most `depth - 1` operations.
/// `f` runs one operation with all its checks and returns the key of the resulting state (None: the
/// state did not change); `redo` re-runs it without checks. States with equal keys are explored once.
pub fn explore<S: St, K: Ord + Clone + Send>(
    ctx: &Ctx,
    s: &Search,
    base: &S,
    key0: K,
    redo: impl Fn(&mut S, usize) + Sync,
    f: impl Fn(&mut S, usize) -> Result<Option<K>, String> + Sync,
) {
    let mut seen: BTreeSet<K> = BTreeSet::new();
    seen.insert(key0);
    let mut frontier: Vec<Vec<usize>> = vec![vec![]];
    let mut per_level = vec![];
    for level in 0..s.depth {
        ctx.state(frontier.len() as u64);
        per_level.push(frontier.len().to_string());
        let found: Mutex<Vec<(Vec<usize>, K)>> = Mutex::new(vec![]);
        let shared = Mutex::new(base.fork());
        // Jobs: a state and a slice of the operations.
        let slices = if frontier.len() >= 64 { 1 } else { s.nops.min(32) };
        ctx.par_with(
            frontier.len() * slices,
            || shared.lock().unwrap().fork(),
            |b, j| {
                let path = &frontier[j / slices];
                let mut st: Option<S> = None;
                for op in (0..s.nops).filter(|op| op % slices == j % slices) {
                    let case = format!("{}|{}", s.name, path.iter().chain(std::iter::once(&op)).map(|o| o.to_string()).collect::<Vec<_>>().join(","));
                    // A replay runs the path to the case and the case itself.
                    if let Some(o) = &ctx.only {
                        if !(o == &case || o.starts_with(&format!("{},", case))) {
                            continue;
                        }
                    }
                    if st.is_none() {
                        let mut x = b.fork();
                        for o in path {
                            redo(&mut x, *o);
                        }
                        st = Some(x);
                    }
                    let mut x = st.as_ref().unwrap().fork();
                    x.limit((path.len() + op) % 2 == 1);
                    ctx.transition(1);
                    let hist = || path.iter().chain(std::iter::once(&op)).map(|o| (s.op_name)(*o)).collect::<Vec<_>>().join("\n  ");
                    match f(&mut x, op) {
                        Err(d) => ctx.violation(format!("{}/{}", ctx.prop, case), case, format!("history:\n  {}\n{}", hist(), d)),
                        Ok(k) => {
                            ctx.trace(1);
                            ctx.sample(s.name, || format!("{} --> {}", hist().replace("\n  ", " ; "), if k.is_some() { "accepted" } else { "no change" }));
                            if let Some(k) = k {
                                if level + 1 < s.depth {
                                    let mut p = path.clone();
                                    p.push(op);
                                    found.lock().unwrap().push((p, k));
                                }
                            }
                        }
                    }
                }
            },
        );
        let mut found = found.into_inner().unwrap();
        found.sort_by(|a, b| a.0.cmp(&b.0));
        frontier = vec![];
        for (p, k) in found {
            if seen.insert(k) {
                frontier.push(p);
            }
        }
        if ctx.too_many() {
            break;
        }
    }
    ctx.note(&format!("{}_states_per_level", s.name), per_level.join(","));
}
