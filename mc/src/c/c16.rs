//! C16: moving transactions off a timeline undoes exactly those transactions.
use crate::c::c07::{coherent, of_schema};
use crate::db::*;
use crate::h::*;
use crate::val::V;
use std::collections::BTreeMap;
use std::sync::Mutex;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every history of data, fulltext, ident and schema transactions of an alphabet, and every suffix of it to move: after the move on the real store every table equals the image taken before the first moved transaction, the moved rows are on the other timeline unchanged, the returned schema and partition map equal those of a fresh open, each of a set of later transactions gives the same as on the image, and illegal moves are refused and change nothing",
        bounds: "21 transactions, all histories of <= 3 (quick: of 3 with a later part of the alphabet) / 4 (thorough), and long ones (7 / 10 transactions, from every operation in 2 / all strides), all suffixes, 4 later transactions",
        assumptions: vec!["transaction instants of later transactions are masked", "the bootstrap transaction is not moved"],
    }
}

const OPS: &[&str] = &[
    "[[:db/add :m/e :m/l1 1]]",
    "[[:db/add :m/e :m/l1 2] [:db/add :m/d :m/l1 1]]",
    "[[:db/add :m/e :m/f1 \"hello\"]]",
    "[[:db/add :m/e :m/f1 \"world\"] [:db/add :m/d :m/fm \"hello\"]]",
    "[{:db/ident :n/a :db/valueType :db.type/long :db/cardinality :db.cardinality/many}]",
    "[[:db/add :m/e :n/a 5] [:db/add :m/e :n/a 6]]",
    "[[:db/add :m/lm :db/cardinality :db.cardinality/one]]",
    "[[:db/add :m/lm :db/ident :m/lm2]]",
    "[[:db/add :m/l1 :db/index true] [:db/add :m/l1 :db/unique :db.unique/value]]",
    "[{:db/id \"n\" :m/u \"x\" :m/r :m/e}]",
    "[{:m/u \"x\" :m/l1 7}]",
    "[[:db/retract :m/e :m/f1 \"hello\"] [:db/retract :m/e :m/l1 0]]",
    "[[:db/add :m/e :m/lm 1] [:db/add :m/d :m/lm 2]]",
    "[[:db/retract :m/e :m/lm 1] [:db/retract :m/e :m/lm 0]]",
    "[[:db/retract :n/a :db/valueType :db.type/long] [:db/retract :n/a :db/cardinality :db.cardinality/many] [:db/retract :n/a :db/ident :n/a]]",
    "[[:db/add (transaction-tx) :db/doc \"note\"] [:db/add :m/e :m/r (transaction-tx)]]",
    "[{:db/ident :m/new :m/l1 9}]",
    "[[:db/retract :m/e :db/ident :m/e]]",
    "[[:db/add :m/e :m/i #inst \"2020-01-01T00:00:00.001Z\"] [:db/add :m/e :m/uu #uuid \"00000000-0000-0000-0000-000000000001\"] [:db/add :m/e :m/dd 1.5] [:db/add :m/e :m/b true] [:db/add :m/e :m/k :m/e]]",
    "[[:db/add :m/e :m/dd 2.0] [:db/add :m/e :m/b false] [:db/add :m/e :m/k :m/other]]",
    "[[:db/add :m/l1 :db/cardinality :db.cardinality/many]]",
];

const FLAGS: usize = 8;

const LATER: &[&str] = &[
    "[[:db/add :m/e :m/l1 1]]",
    "[{:db/id \"n\" :m/u \"x\" :m/r :m/e} {:db/ident :m/new} {:db/ident :n/a :db/valueType :db.type/string :db/cardinality :db.cardinality/one}]",
    "[[:db/add :m/e :m/f1 \"hello\"] [:db/add :m/e :m/fm \"hello\"] [:db/retract :m/e :m/lm 0] [:db/add :m/d :m/lm 2]]",
    "[[:db/add :m/l1 :db/index true] [:db/add :m/l1 :db/unique :db.unique/identity]]",
];

fn base() -> Db {
    let mut db = Db::new();
    let a = |n: &str, t: &str, many: bool, rest: &str| format!("{{:db/ident :m/{} :db/valueType :db.type/{} :db/cardinality :db.cardinality/{} {}}}", n, t, if many { "many" } else { "one" }, rest);
    db.must(&format!(
        "[{}{}{}{}{}{}{}{}{}{}{}{{:db/ident :m/e}}{{:db/ident :m/d}}]",
        a("l1", "long", false, ""),
        a("lm", "long", true, ""),
        a("f1", "string", false, ":db/index true :db/fulltext true"),
        a("fm", "string", true, ":db/index true :db/fulltext true"),
        a("r", "ref", false, ""),
        a("u", "string", false, ":db/index true :db/unique :db.unique/identity"),
        a("i", "instant", false, ""),
        a("uu", "uuid", false, ""),
        a("dd", "double", true, ""),
        a("b", "boolean", false, ""),
        a("k", "keyword", false, ""),
    ));
    db.must("[[:db/add :m/e :m/lm 0] [:db/add :m/e :m/l1 0] [:db/add :m/e :m/fm \"start\"]]");
    db
}

/// Rows of the log as they are stored.
fn raw(sql: &rusqlite::Connection) -> BTreeMap<i64, Vec<String>> {
    let mut st = sql.prepare_cached("SELECT timeline, tx, CAST(e AS TEXT), CAST(a AS TEXT), typeof(v)||CAST(quote(v) AS TEXT), CAST(value_type_tag AS TEXT), CAST(added AS TEXT) FROM timelined_transactions ORDER BY 1,2,3,4,5,6,7").unwrap();
    let mut rows = st.query(rusqlite::params![]).unwrap();
    let mut m: BTreeMap<i64, Vec<String>> = BTreeMap::new();
    while let Some(r) = rows.next().unwrap() {
        let s = |i: usize| r.get::<_, String>(i).unwrap();
        m.entry(r.get(0).unwrap()).or_default().push(format!("{} {} {} {} {} {}", r.get::<_, i64>(1).unwrap(), s(2), s(3), s(4), s(5), s(6)));
    }
    m
}

fn differ(want: &Dump, got: &Dump) -> Option<String> {
    if want.datoms != got.datoms {
        return Some(format!("datoms differ\n{}", crate::world::diff(&want.datoms, &got.datoms)));
    }
    macro_rules! same {
        ($($f:ident),*) => { $( if want.$f != got.$f { return Some(format!("{} differ\nwanted {:?}\ngot {:?}", stringify!($f), want.$f, got.$f)); } )* };
    }
    if want.log != got.log {
        return Some(format!("the main log differs: {:?}", want.log.symmetric_difference(&got.log).collect::<Vec<_>>()));
    }
    // (A flag that is false, or cardinality one, means the same as nothing.)
    let default = |d: &&(i64, i64, V)| d.2 == V::Bool(false);
    let (s, t): (Vec<_>, Vec<_>) = (want.schema.iter().filter(|d| !default(d)).collect(), got.schema.iter().filter(|d| !default(d)).collect());
    if s != t {
        return Some(format!("the schema table differs\nwanted {:?}\ngot {:?}", s, t));
    }
    same!(idents, flags, parts);
    None
}

/// Instants of transactions after `tx` are not compared.
fn mask(mut d: Dump, tx: i64) -> Dump {
    d.datoms = d.datoms.into_iter().map(|((e, a, v), t)| if e > tx && a == 3 { ((e, a, V::Inst(0)), t) } else { ((e, a, v), t) }).collect();
    d.log = d.log.into_iter().map(|(t, e, a, v, x)| if e > tx && a == 3 { (t, e, a, V::Inst(0), x) } else { (t, e, a, v, x) }).collect();
    d.flags = d.flags.into_iter().map(|((e, a, v), t)| if e > tx && a == 3 { ((e, a, V::Inst(0)), t) } else { ((e, a, v), t) }).collect();
    d.other_log = vec![];
    d
}

fn reopen(sql: rusqlite::Connection) -> Result<Db, String> {
    let mut sql = sql;
    let conn = mentat::Conn::connect(&mut sql).map_err(|e| format!("the store cannot be opened: {}", e))?;
    Ok(Db { sql, conn })
}

fn moved(db: &Db, from: i64, to: i64) -> (rusqlite::Connection, Result<(Option<mentat::Schema>, mentat_db::PartitionMap), String>) {
    let sql = db.copy_sql();
    let pmap = mentat_db::db::read_partition_map(&sql).unwrap();
    let schema = db.conn.current_schema();
    let r = guard(|| mentat_db::timelines::move_from_main_timeline(&sql, &schema, pmap, from.., to).map_err(|e| format!("{}", e))).and_then(|x| x);
    (sql, r)
}

fn check(ctx: &Ctx, images: &[Db], path: &[usize], later: bool) -> Result<(), String> {
    let now = images.last().unwrap();
    let log = raw(&now.sql);
    let last = |d: &Db| d.conn.last_tx_id();
    for k in (0..images.len() - 1).rev() {
        let image = &images[k];
        let from = last(image) + 1;
        let what = format!("moving {} transactions", images.len() - 1 - k);
        ctx.transition(1);
        let (sql, r) = moved(now, from, 7);
        // Taking back a flag added to an attribute that was there already is a schema alteration that
        // may not be made by transacting either.
        let (schema, pmap) = match r {
            Err(ref e) if path[k..].contains(&FLAGS) && e.contains("not permitted") => {
                ctx.outcome(&("refused", path));
                continue;
            }
            r => r.map_err(|e| format!("{}: refused: {}", what, e))?,
        };
        let (want, got) = (image.dump(), dump(&sql));
        if let Some(d) = differ(&want, &got) {
            return Err(format!("{}: {}", what, d));
        }
        let after = raw(&sql);
        let id = |s: &String| s.split(' ').next().unwrap().parse::<i64>().unwrap();
        let wanted: Vec<&String> = log[&0].iter().filter(|s| id(s) >= from).collect();
        if after.get(&7).map(|v| v.iter().collect::<Vec<_>>()).unwrap_or_default() != wanted {
            return Err(format!("{}: the other timeline has {:?}, wanted {:?}", what, after.get(&7), wanted));
        }
        if after.keys().any(|t| ![0, 7].contains(t)) {
            return Err(format!("{}: timelines {:?}", what, after.keys()));
        }
        // What the caller is told.
        let mut there = reopen(sql)?;
        let fresh = there.conn.current_schema();
        let given = schema.unwrap_or_else(|| (*now.conn.current_schema()).clone());
        let (a, b) = (of_schema(&given)?, of_schema(&fresh)?);
        if a != b {
            let d: Vec<_> = a.attrs.iter().filter(|x| b.attrs.get(x.0) != Some(x.1)).map(|x| format!("{:?}", x)).chain(b.attrs.iter().filter(|x| a.attrs.get(x.0) != Some(x.1)).map(|x| format!("fresh: {:?}", x))).chain(a.idents.iter().filter(|x| b.idents.get(x.0) != Some(x.1)).map(|x| format!("{:?}", x))).chain(b.idents.iter().filter(|x| a.idents.get(x.0) != Some(x.1)).map(|x| format!("fresh: {:?}", x))).collect();
            return Err(format!("{}: the schema returned is not that of a fresh open: {:#?}", what, d));
        }
        if of_schema(&image.conn.current_schema())? != b {
            return Err(format!("{}: the schema is not what it was", what));
        }
        let fp = mentat_db::db::read_partition_map(&there.sql).map_err(|e| format!("{}", e))?;
        if fp != pmap {
            return Err(format!("{}: the partition map returned is {:?}, a fresh open reads {:?}", what, pmap, fp));
        }
        coherent(&there).map_err(|e| format!("{}: {}", what, e))?;
        // A second time: the timeline is taken, and there may be nothing left to move.
        for (f, t, why) in vec![(from, 8, "nothing to move"), (268435456 + 1, 7, "the timeline is not empty"), (268435456 + 1, 0, "not off the main timeline")] {
            let before = raw(&there.sql);
            let (sql, r) = moved(&there, f, t);
            if r.is_ok() {
                return Err(format!("{}; then moving from {} to timeline {} is not refused: {}", what, f, t, why));
            }
            if raw(&sql) != before || differ(&there.dump(), &dump(&sql)).is_some() {
                return Err(format!("{}; then moving from {} to timeline {} is refused, and changes something", what, f, t));
            }
        }
        if later {
            for l in LATER {
                ctx.transition(1);
                let mut twin = image.fork();
                let (mut x, mut y) = (there.fork(), 0);
                let (r, s) = (x.transact(l), twin.transact(l));
                for rep in [&r, &s].iter() {
                    if let Ok(rep) = rep {
                        y = rep.tx_id;
                    }
                }
                let show = |r: &Result<mentat::TxReport, String>| r.as_ref().map(|r| (r.tx_id, r.tempids.clone())).map_err(|_| ());
                if show(&r) != show(&s) {
                    return Err(format!("{}; then {}: {:?}, but without the moved transactions {:?}", what, l, r, s));
                }
                if let Some(d) = differ(&mask(twin.dump(), y - 1), &mask(x.dump(), y - 1)) {
                    return Err(format!("{}; then {}: {}", what, l, d));
                }
                coherent(&x).map_err(|e| format!("{}; then {}: {}", what, l, e))?;
                // And moving that off again, to a third timeline.
                if r.is_ok() && *l != LATER[3] {
                    let (sql, m) = moved(&x, y, 8);
                    m.map_err(|e| format!("{}; then {}; moving that is refused: {}", what, l, e))?;
                    if let Some(d) = differ(&want, &dump(&sql)) {
                        return Err(format!("{}; then {}; moving that: {}", what, l, d));
                    }
                }
            }
        }
        let _ = &mut there;
    }
    Ok(())
}

fn walk(ctx: &Ctx, images: &mut Vec<Db>, path: &mut Vec<usize>, depth: usize, from: usize) {
    if ctx.too_many() {
        return;
    }
    if !path.is_empty() {
        let case = path.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(",");
        if ctx.want(&case) {
            ctx.trace(1);
            ctx.state(1);
            let hist = path.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join("\n  ");
            match check(ctx, images, path, path.len() < depth || path.len() <= 2 || ctx.thorough && path.len() <= 3) {
                Ok(()) => ctx.sample("history", || hist),
                Err(e) => ctx.violation(format!("C16/{}", case), case, format!("history:\n  {}\n{}", hist, e)),
            }
            ctx.outcome(&hash(&images.last().unwrap().datoms().keys().map(|d| format!("{:?}", d)).collect::<Vec<_>>()));
        }
    }
    if path.len() == depth {
        return;
    }
    for o in 0..OPS.len() {
        if path.len() == 2 && o < from {
            continue;
        }
        path.push(o);
        let mut db = images.last().unwrap().fork();
        if db.transact(OPS[o]).is_ok() {
            images.push(db);
            walk(ctx, images, path, depth, from);
            images.pop();
        }
        path.pop();
    }
}

pub fn run(ctx: &Ctx) {
    let n = OPS.len();
    let root = Mutex::new(base());
    let depth = if ctx.thorough { 4 } else { 3 };
    ctx.par_with(
        n * n,
        || root.lock().unwrap().fork(),
        |db, j| {
            let (a, b) = (j / n, j % n);
            let mut images = vec![db.fork()];
            let mut path = vec![];
            for o in [a, b].iter() {
                let mut db = images.last().unwrap().fork();
                if db.transact(OPS[*o]).is_err() {
                    return;
                }
                images.push(db);
                path.push(*o);
                if path.len() == 1 && b == 0 {
                    walk(ctx, &mut images, &mut path, 1, 0);
                }
            }
            walk(ctx, &mut images, &mut path, depth, 0);
        },
    );
    // Long histories: every operation first, every stride through the alphabet.
    let strides: Vec<usize> = if ctx.thorough { (1..n).collect() } else { vec![1, 8] };
    ctx.par_with(
        n * strides.len(),
        || root.lock().unwrap().fork(),
        |db, j| {
            let (start, stride) = (j % n, strides[j / n]);
            let case = format!("long|{}|{}", start, stride);
            if !ctx.want(&case) || ctx.too_many() {
                return;
            }
            let mut images = vec![db.fork()];
            let mut path = vec![];
            let mut o = start;
            while path.len() < if ctx.thorough { 10 } else { 7 } {
                let mut db = images.last().unwrap().fork();
                if db.transact(OPS[o]).is_ok() {
                    images.push(db);
                    path.push(o);
                }
                o = (o + stride) % n;
                if o == start {
                    break;
                }
            }
            ctx.trace(1);
            ctx.state(1);
            if let Err(e) = check(ctx, &images, &path, ctx.thorough) {
                let hist = path.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join("\n  ");
                ctx.violation(format!("C16/{}", case), case, format!("history:\n  {}\n{}", hist, e));
            }
        },
    );
}
