//! C24: every request is answered or refused; none crashes, and the store works on.
use crate::c::c10::{databases, Ids};
use crate::db::*;
use crate::h::*;
use crate::val::kw;
use mentat::{CacheDirection, HasSchema, QueryInputs, Queryable, TypedValue, ValueType, Variable};
use mentat_transaction::{CacheAction, Pullable};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every pattern over an alphabet of what each place can syntactically be; every predicate and function with every argument list and binding over alphabets; every clause of a list covering each kind alone, in pairs, and within each kind of nesting; every find specification with every order, limit, with and input over them; every kind of value as an input wherever an input can be used; every transaction of one entity over an alphabet of what each place can syntactically be, maps, and every pair of entities of a list; every pull, lookup, caching and savepoint request over an alphabet of attributes, entities and names: each is run on the real code (queries once, prepared and explained) and must end in an answer or an error, the same both ways; afterwards the same store must answer a fixed query as before, a transaction nobody committed must leave no trace, and a fixed transaction must still be possible",
        bounds: "patterns: 3 sources x 11 x 11 x 32 x 7; functions: 13 names x argument lists over 22 arguments (quick: <= 2 of all, 3 of 9; thorough: 3 of all) x 12 bindings; clauses: 62, all pairs, 8 ways of nesting (thorough: triples); 21 find elements in 4 forms and pairs x 14 where clauses x 12 suffixes; 9 types of inputs x 16 uses; transactions: 2 x 18 x 31 x 52 terms, maps of <= 2 of 24 entries, pairs of 40 entities (thorough: triples of 20); pulls, lookups and caching: 16 attributes x 9 entities; savepoint requests: sequences of 4 (thorough: 5) of 9",
        assumptions: vec!["what the answer must be is decided by the other properties"],
    }
}

struct St {
    dbs: Vec<Db>,
    ids: Ids,
    before: Vec<String>,
}

fn fixed(db: &Db) -> String {
    match guard(|| db.conn.q_once(&db.sql, "[:find ?e ?a ?v ?tx :where [?e ?a ?v ?tx] [?e :t/l] :order ?e ?a ?v]", None).map(|o| format!("{:?}", o.results)).map_err(|e| e.to_string())) {
        Ok(r) => format!("{:?}", r),
        Err(p) => p,
    }
}

fn state(db: &Db) -> String {
    let n: i64 = db.sql.query_row("SELECT count(*) FROM timelined_transactions", rusqlite::params![], |r| r.get(0)).unwrap();
    let m: i64 = db.sql.query_row("SELECT count(*) FROM datoms", rusqlite::params![], |r| r.get(0)).unwrap();
    format!("{} log rows, {} datoms, last tx {}, {} idents\n{}", n, m, db.conn.last_tx_id(), db.conn.current_schema().ident_map.len(), fixed(db))
}

fn make() -> St {
    let (dbs, ids) = databases();
    let before = dbs.iter().map(state).collect();
    St { dbs, ids, before }
}

impl St {
    fn check(&self) -> Result<(), String> {
        for (d, b) in self.dbs.iter().zip(&self.before) {
            let now = state(d);
            if now != *b {
                return Err(format!("afterwards: {}\nbefore: {}", now, b));
            }
        }
        Ok(())
    }
}

/// Ask it in every way; say whether it was answered.
fn ask(db: &Db, text: &str, inputs: &dyn Fn() -> Option<QueryInputs>) -> Result<Result<(), String>, String> {
    let once = guard(|| db.conn.q_once(&db.sql, text, inputs()).map(|_| ()).map_err(|e| e.to_string())).map_err(|p| format!("asked once: {}", p))?;
    let expl = guard(|| db.conn.q_explain(&db.sql, text, inputs()).map(|_| ()).map_err(|e| e.to_string())).map_err(|p| format!("explained: {}", p))?;
    let prep = guard(|| match db.conn.q_prepare(&db.sql, text, inputs()) {
        Ok(mut p) => p.run(None).map(|_| ()).map_err(|e| e.to_string()),
        Err(e) => Err(e.to_string()),
    })
    .map_err(|p| format!("prepared: {}", p))?;
    if prep.is_ok() != once.is_ok() || expl.is_ok() && once.is_err() && !once.as_ref().unwrap_err().contains("type") {
        // (Explaining doesn't run it.)
        if prep.is_ok() != once.is_ok() {
            return Err(format!("asked once: {:?}; prepared: {:?}", once, prep));
        }
    }
    Ok(once)
}

fn query(ctx: &Ctx, st: &mut St, group: &str, text: &str, inputs: &dyn Fn() -> Option<QueryInputs>, label: &str) {
    let case = format!("{} {}", label, text);
    if !ctx.want(&case) {
        return;
    }
    ctx.trace(1);
    for db in &st.dbs {
        ctx.transition(1);
        match ask(db, text, inputs) {
            Err(p) => {
                ctx.violation(format!("C24/{}", group), case, format!("{} {}: {}", label, text, p));
                // (What is left of the store after a panic isn't worth checking.)
                *st = make();
                return;
            }
            Ok(a) => {
                ctx.count(if a.is_ok() { "queries answered" } else { "queries refused" }, 1);
                ctx.outcome(&(group, a.is_ok()));
                if a.is_ok() {
                    ctx.sample(group, || text.to_string());
                }
            }
        }
    }
}

fn run_queries(ctx: &Ctx, group: &str, n: usize, list: &(dyn Fn(&Ids, usize) -> Vec<String> + Sync)) {
    ctx.par_with(n, make, |st, i| {
        if ctx.too_many() {
            return;
        }
        for t in list(&st.ids, i) {
            let with_in = t.contains(":in ?in");
            query(ctx, st, group, &t, &|| if with_in { Some(QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?in"), TypedValue::Long(1))])) } else { None }, "q");
        }
        if let Err(e) = st.check() {
            ctx.violation(format!("C24/{}", group), format!("{} {}", group, i), format!("after {:?}: {}", list(&st.ids, i), e));
        }
        ctx.state(1);
    });
}

// ---------------------------------------------------------------- patterns

fn values(ids: &Ids) -> Vec<String> {
    let mut out: Vec<String> = vec![ids.a.to_string()];
    out.extend(
        ["_", "?v", "?e", "?in", "-1", "9223372036854775807", ":t/l", ":t/nope", ":plain", "true", "1.5", "#f NaN", "\"x\"", "\"it's\"", "1N", "123456789012345678901234567890N", "#inst \"1970-01-01T00:00:00Z\"", "#uuid \"00000000-0000-0000-0000-000000000001\"",
            "#instmicros 9223372036854775807", "#instmicros -9223372036854775808", "#instmillis 9223372036854775807", "#inst \"9999-12-31T23:59:60Z\"", "#inst \"-262144-01-01T00:00:00Z\"", "1e400", "-1e-400", "0xFFFFFFFFFFFFFFFF", "36rZZZZZZZZZZZZZ", "2r2", "-0", "\"\\u{0}\"", ":t.u-v/w!x*$%&=<>?",
        ]
            .iter()
            .map(|s| s.to_string()),
    );
    out
}
const VALUES: usize = 32;

fn patterns(ctx: &Ctx) {
    let (ne, na) = (11, 11);
    run_queries(ctx, "pattern", 3 * ne * na * VALUES, &|ids, i| {
        let (a, tx) = (ids.a.to_string(), ids.tx.to_string());
        let e = ["_", "?e", "?v", "?in", &a, "-1", "99999999", ":t/l", ":t/nope", ":plain", "?tx"];
        let at = ["_", "?e", "?a", "?in", "65536", "99999999", ":t/l", ":t/r", ":t/f", ":t/nope", ":t/_r"];
        let v = values(ids);
        let mut j = i;
        let mut next = |n: usize| {
            let r = j % n;
            j /= n;
            r
        };
        let (s, e, at, v) = (["", "$ ", "$x "][next(3)], e[next(ne)], at[next(na)], &v[next(VALUES)]);
        let mut out = vec![];
        for t in &["", "_", "?tx", "?e", "?in", &tx, ":t/l"] {
            let c = format!("[{}{} {} {} {}]", s, e, at, v, t);
            let inp = if c.contains("?in") { " :in ?in" } else { "" };
            out.push(format!("[:find ?x{} :where [?x :t/l 1] {}]", inp, c));
            if *t == "?tx" {
                out.push(format!("[:find ?e ?v{} :where {} [?e :t/m ?v]]", inp, c));
            }
        }
        out
    });
}

// ---------------------------------------------------------------- functions

const ARGS: &[&str] = &[
    "?x", "$", ":t/f", "\"x\"", "1", "?v", "?in", "$log", ":t/nope", "?un", "-1", "9223372036854775807", ":plain", "true", "1.5", "1N", "#inst \"1970-01-01T00:00:00Z\"", "#uuid \"00000000-0000-0000-0000-000000000001\"", "[1 2]", "[[1 2] [3 4]]", "[1 \"x\"]",
    "[[1] [2 3]]", "[?x]", "[?un]", "[[?x 1]]", "_", "nil", "[[[1]]]", "[1N]", "[true $]",
];
const NAMES: &[&str] = &["ground", "fulltext", "tx-ids", "tx-data", "<", ">=", "!=", "=", "nope", "unpermute", "differ", "get-else", "count"];
const BINDINGS: &[&str] = &["", "?y", "[?y ...]", "[?y]", "[?y ?z]", "[?y _]", "[_]", "[[?y]]", "[[?y ?z]]", "[[?y ?y]]", "[[_ _]]", "[[?y ?z ?t ?s]]", "[[?y _ ?z ?t ?s]]", "?x", "[?x ...]", "[[?x ?v]]", "_"];

fn functions(ctx: &Ctx) {
    let n = ARGS.len();
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    lists.extend(sequences(n, 1));
    lists.extend(sequences(n, 2));
    lists.extend(sequences(if ctx.thorough { n } else { 9 }, 3));
    lists.extend(sequences(3, 4));
    run_queries(ctx, "function", lists.len() * NAMES.len(), &|_, i| {
        let (l, name) = (&lists[i / NAMES.len()], NAMES[i % NAMES.len()]);
        if l.len() > 2 && !["fulltext", "tx-ids", "tx-data", "<", "ground"].contains(&name) {
            return vec![];
        }
        let args: Vec<&str> = l.iter().map(|a| ARGS[*a]).collect();
        let mut out = vec![];
        for b in BINDINGS {
            let c = format!("[({} {}) {}]", name, args.join(" "), b);
            let inp = if c.contains("?in") { " :in ?in" } else { "" };
            out.push(format!("[:find ?e{} :where [?e :t/l ?x] {} [?e :t/m ?v]]", inp, c));
            if b.contains("?y") {
                out.push(format!("[:find ?y{} :where {}]", inp, c));
            }
        }
        out
    });
}

// ---------------------------------------------------------------- clauses

const CLAUSES: &[&str] = &[
    "[?x :t/l ?y]", "[?x :t/r ?y]", "[?x :t/s ?y]", "[?x :t/f ?y]", "[?x ?a ?y]", "[?x _ ?y]", "[?x :t/nope ?y]", "[_ _ _]", "[?y :t/_r ?x]", "[:t/l ?a ?y]", "[?x :t/d 1.5 ?y]", "[?x :t/l ?x]", "[?x ?x ?x]", "[?x ?a ?x ?a]", "[?y ?y ?y ?y]",
    "[(ground 1) ?y]", "[(ground [1 2]) [?y ...]]", "[(ground [\"x\" \"y\"]) [?y ...]]", "[(ground [[1 2] [3 4]]) [[?x ?y]]]", "[(ground [:t/l]) [?a ...]]", "[(ground true) ?x]", "[(ground [1 2]) [?x _]]", "[(ground 1.5) ?y]", "[(ground :t/l) ?y]",
    "[(fulltext $ :t/f \"x\") [[?x ?y]]]", "[(fulltext $ :t/f ?y) [[?x]]]", "[(fulltext $ #{:t/f} \"x\") [[?x ?y _ ?z]]]", "[(tx-ids $ 0 268435999) [?y ...]]", "[(tx-data $ 268435457) [[?x _ ?y]]]", "[(tx-data $ ?y) [[?x ?a _ _ _]]]", "[(tx-data $ ?t) [[_ _ _ ?y ?z]]]", "[(tx-ids $ ?x ?y) [?t ...]]",
    "[(< ?y 2)]", "[(< ?x ?y)]", "[(!= ?y \"x\")]", "[(!= ?x ?y)]", "[(>= 2 1)]", "[(< 1.5 ?y)]", "[(< ?y #inst \"1970-01-01T00:00:00Z\")]", "[(differ ?x ?y)]", "[(unpermute ?x ?y)]", "[(type ?y :db.type/long)]", "[(type ?x :db.type/ref)]", "[(type ?y :db.type/nope)]", "[(type ?q :db.type/string)]",
    "(or [?x :t/l ?y] [?x :t/m ?y])", "(or [?x :t/l 1] [?x :t/m ?z])", "(or-join [?x] [?x :t/l 1] [?x :t/m ?z])", "(or-join [?x ?y] [?x :t/l ?y] [?x :t/s ?y])", "(or (and [?x :t/l ?y] [(< ?y 2)]) [?x :t/d ?y])", "(or-join [?q] [?x :t/l ?y])", "(not [?x :t/l ?y])", "(not [?z :t/l 1])", "(not-join [?x] [?x :t/l ?z])", "(not-join [?q] [?q :t/l ?z])", "(or [(ground 1) ?y] [(ground 2) ?y])",
    "(or [?x :t/nope ?y] [?x :t/nope2 ?y])", "(not [?x :t/nope ?y])", "(or-join [?x] [?x :t/nope 1])", "(not [(< ?y 2)])", "(or [(< ?y 2)] [(> ?y 3)])", "(rule ?x ?y)", "($ rule ?x)",
];

const NESTS: &[&str] = &["{}", "(or {})", "(or {} [?x :t/m ?y])", "(or (and {} [?x :t/m ?y]) [?x :t/lm ?y])", "(or-join [?x] {} [?x :t/b true])", "(or-join [?x ?y] (and {} [?x :t/b true]) [?x :t/lm ?y])", "(not {})", "(not-join [?x] {})", "(not (or {} [?x :t/m ?y]))", "(or (not {}) [?x :t/m ?y])", "(not (not {}))"];

fn clauses(ctx: &Ctx) {
    let n = CLAUSES.len();
    let mut lists: Vec<Vec<usize>> = sequences(n, 1).collect();
    lists.extend(sequences(n, 2));
    if ctx.thorough {
        lists.extend(sequences(n, 3));
    }
    run_queries(ctx, "clause", lists.len(), &|_, i| {
        let l = &lists[i];
        let all = l.iter().map(|c| CLAUSES[*c]).collect::<Vec<_>>().join(" ");
        let mut out = vec![format!("[:find ?x ?y :where {}]", all)];
        if l.len() <= 2 {
            out.push(format!("[:find ?x :where [?x :t/rm ?y] {}]", all));
            out.push(format!("[:find (count ?x) . :where {}]", all));
            for nest in NESTS {
                let first = nest.replace("{}", CLAUSES[l[0]]);
                let rest = l[1..].iter().map(|c| CLAUSES[*c]).collect::<Vec<_>>().join(" ");
                out.push(format!("[:find ?x ?y :where [?x :t/lm ?y] {} {}]", first, rest));
                out.push(format!("[:find ?x :where {} {}]", rest, first));
            }
        }
        out
    });
}

// ---------------------------------------------------------------- find specifications

const ELEMS: &[&str] = &[
    "?x", "?y", "(the ?y)", "(pull ?x [*])", "(pull ?x [:t/l])", "(pull ?x [:t/nope])", "(pull ?x [:t/l :as :u :db/id])", "(pull ?y [* :t/l])", "(count ?x)", "(sum ?y)", "(avg ?y)", "(min ?y)", "(max ?y)", "(count ?x ?y)", "(sum)", "(sum 1)", "(nope ?x)", "(count ?un)", "?un", "(the ?un)", "(pull ?un [*])", "(max $)", "(sample 1 ?x)",
    "(count-distinct ?x)", "(min _)", "(sum [?y])", "(pull ?x [:db/id])", "(pull ?x [:db/id :as :t/l])",
];
const WHERES: &[&str] = &[
    "[?x :t/l ?y]", "[?x :t/s ?y]", "[?x :t/r ?y]", "[?x ?a ?y]", "[?x :t/nope ?y]", "[(ground [[1 2] [3 4]]) [[?x ?y]]]", "[(ground [1 \"x\"]) [?x ?y]]", "[(ground 1) ?x] [(ground 1.5) ?y]", "[(ground [1 2]) [?x ...]]", "[(ground [[1 2]]) [[?x ?y]]] [(> ?x 5)]", "[?x :t/b ?y]", "[?x :t/d ?y]", "[?x :t/i ?y]", "[?x :t/lm ?y]",
    "[?x :t/l ?y] [(ground 5) ?z]", "[(ground true) ?x] [(ground \"x\") ?y]", "[?x :t/l 1] [(ground 3) ?y]", "(or [?x :t/l ?y] [?x :t/nope ?y])", "[(ground 65536) ?x] [?x :db/ident ?y]",
];
const SUFFIXES: &[&str] = &["", ":limit 1", ":limit 0", ":limit ?un", ":order ?x", ":order (desc ?y)", ":order (asc ?y) ?x", ":order ?un", ":with ?y", ":with ?un", ":with ?x ?y", ":with ?y :order ?y :limit 2", ":in ?in", ":in ?in :limit ?in", ":in ?x", ":in ?in :order ?in", ":in ?in ?in", ":order ?x :order ?y", ":with ?z"];

fn finds(ctx: &Ctx) {
    let n = ELEMS.len();
    let mut specs: Vec<String> = vec![];
    for e in ELEMS {
        specs.push(e.to_string());
        specs.push(format!("{} .", e));
        specs.push(format!("[{} ...]", e));
        specs.push(format!("[{}]", e));
    }
    for p in sequences(n, 2) {
        specs.push(format!("{} {}", ELEMS[p[0]], ELEMS[p[1]]));
        if ctx.thorough || p[0] < 12 && p[1] < 12 {
            specs.push(format!("[{} {}]", ELEMS[p[0]], ELEMS[p[1]]));
        }
    }
    if ctx.thorough {
        for p in sequences(n, 3) {
            specs.push(format!("{} {} {}", ELEMS[p[0]], ELEMS[p[1]], ELEMS[p[2]]));
        }
    }
    run_queries(ctx, "find", specs.len() * WHERES.len(), &|_, i| {
        let (s, w) = (&specs[i / WHERES.len()], WHERES[i % WHERES.len()]);
        let few = i / WHERES.len() >= ELEMS.len() * 4;
        SUFFIXES.iter().enumerate().filter(|(j, _)| !few || j % 4 == i % 4).map(|(_, x)| format!("[:find {} {} :where {}]", s, x, w)).collect()
    });
}

// ---------------------------------------------------------------- inputs

fn inputs(ctx: &Ctx) {
    let uses = [
        "[?in :t/l ?y]", "[?x ?in ?y]", "[?x :t/l ?in]", "[?x :t/r ?in]", "[?x :t/f ?in]", "[?x :t/s ?in]", "[?x :t/l ?y ?in]", "[?x ?a ?in]", "[?x _ ?in]", "[?x :t/l ?y] [(< ?y ?in)]", "[?x :t/l ?y] [(< ?in 3)]", "[?x :t/l ?y] [(!= ?in ?y)]", "[(fulltext $ :t/f ?in) [[?x ?y]]]", "[(ground ?in) ?x]", "[(ground [?in 2]) [?x ...]]",
        "[(ground [[?in 2]]) [[?x ?y]]]", "[(tx-ids $ ?in 300000000) [?x ...]]", "[(tx-data $ ?in) [[?x ?a ?y]]]", "[?x :t/l ?y] [(type ?in :db.type/long)]", "(or [?x :t/l ?in] [?x :t/m ?in])", "(or-join [?x ?in] [?x :t/l ?in] [?in :t/r ?x])", "[?x :t/l ?y] (not [?x :t/m ?in])", "[?x :t/l ?y] (not-join [?in] [?in :t/m 1])", "[?x :t/l ?y]", "[?in ?in ?in]", "[?x ?in 1]", "[?in :t/l 1] [?x ?in ?y]",
        "[?x :db/ident ?in]",
    ];
    let finds = ["?x", "?in", "(count ?in) .", "(the ?in) (max ?x)", "(pull ?in [*])", "[?x ...]", "?x :limit ?in", "?x :order ?in", "?x :with ?in"];
    let types = [None, Some(ValueType::Ref), Some(ValueType::Long), Some(ValueType::String), Some(ValueType::Keyword), Some(ValueType::Double)];
    let nv = 16;
    ctx.par_with(uses.len() * finds.len(), make, |st, i| {
        let text = format!("[:find {} :in ?in :where {}]", finds[i % finds.len()], uses[i / finds.len()]);
        let text = if let Some(p) = text.find(" :limit").or_else(|| text.find(" :order")).or_else(|| text.find(" :with")) {
            // (Parts of the query in their usual order.)
            let q = text.find(" :in").unwrap();
            format!("{}{}{}", &text[..p], &text[q..text.len() - 1], &text[p..q]) + "]"
        } else {
            text
        };
        let a = st.ids.a;
        for k in 0..nv {
            for t in &types {
                let inp = || {
                    let v = match k {
                        0 => TypedValue::Ref(a),
                        1 => TypedValue::Ref(-1),
                        2 => TypedValue::Long(1),
                        3 => TypedValue::Long(a),
                        4 => TypedValue::Long(i64::min_value()),
                        5 => TypedValue::Boolean(true),
                        6 => TypedValue::Double(1.5.into()),
                        7 => TypedValue::Double(std::f64::NAN.into()),
                        8 => TypedValue::typed_string("x"),
                        9 => TypedValue::typed_string("\""),
                        10 => TypedValue::typed_string(""),
                        11 => TypedValue::typed_ns_keyword("t", "l"),
                        12 => TypedValue::typed_ns_keyword("t", "nope"),
                        13 => TypedValue::Uuid(uuid::Uuid::nil()),
                        14 => TypedValue::current_instant(),
                        _ => return None,
                    };
                    let name = Variable::from_valid_name("?in");
                    match t {
                        None => Some(QueryInputs::with_value_sequence(vec![(name, v)])),
                        Some(t) => QueryInputs::new(std::iter::once((name.clone(), *t)).collect(), std::iter::once((name, v)).collect()).ok(),
                    }
                };
                if t.is_some() && k < 15 && inp().is_none() {
                    continue;
                }
                query(ctx, st, "input", &text, &inp, &format!("input{}:{:?}", k, t));
            }
            // Types only: not bound.
            let only = || Some(QueryInputs::with_type_sequence(vec![(Variable::from_valid_name("?in"), ValueType::Long)]));
            query(ctx, st, "input", &text, &only, "unbound");
        }
        if let Err(e) = st.check() {
            ctx.violation("C24/input", format!("input {}", text), format!("after {}: {}", text, e));
        }
        ctx.state(1);
    });
}

// ---------------------------------------------------------------- transactions

/// Transact in a transaction that is dropped: answered or refused, and no trace.
fn transaction(ctx: &Ctx, st: &mut St, text: &str) {
    let case = format!("t {}", text);
    if !ctx.want(&case) {
        return;
    }
    ctx.trace(1);
    ctx.transition(1);
    let d = &mut st.dbs[0];
    let (sql, conn) = (&mut d.sql, &mut d.conn);
    let got = guard(|| -> Result<(), String> {
        let mut ip = conn.begin_transaction(sql).map_err(|e| e.to_string())?;
        let r = ip.transact(text).map(|_| ()).map_err(|e| e.to_string());
        // It must still be possible to ask, and to transact something else unless this was refused.
        ip.q_once("[:find ?e ?a ?v ?tx :where [?e ?a ?v ?tx]]", None).map_err(|e| format!("PANIC then: {}", e))?;
        if r.is_ok() {
            ip.transact("[[:db/add \"new\" :t/b true]]").map_err(|e| format!("PANIC then: {}", e))?;
        }
        r
    })
    .and_then(|r| r);
    let r = match got {
        Err(p) if p.starts_with("PANIC") => Err(p),
        r => {
            ctx.count(if r.is_ok() { "transactions answered" } else { "transactions refused" }, 1);
            ctx.outcome(&("t", r.is_ok()));
            if r.is_ok() {
                ctx.sample("transaction", || text.to_string());
            }
            let now = state(&st.dbs[0]);
            if now == st.before[0] {
                Ok(())
            } else {
                Err(format!("afterwards: {}\nbefore: {}", now, st.before[0]))
            }
        }
    };
    if let Err(e) = r {
        ctx.violation("C24/transaction", case, format!("{}: {}", text, e));
        *st = make();
    }
}

fn terms(a: i64) -> Vec<String> {
    [
        "{a}", "-1", "99999999", "\"t\"", ":t/l", ":t/nope", ":plain", "(lookup-ref :t/s \"x\")", "(lookup-ref :t/s \"nope\")", "(lookup-ref :t/l 1)", "(lookup-ref :t/nope 1)", "(lookup-ref 99999999 1)", "(transaction-tx)", "(nope)", "1", "65536", "268435456", "(lookup-ref :t/s :t/s)", "[1 2]", "[]", "[[1]]", "[\"t\" \"u\"]",
        "{:t/l 3}", "{}", "{:db/id \"t\"}", "{:db/id 1 :t/nope 1}", "true", "1.5", "#f NaN", "\"\"", "1N", "123456789012345678901234567890N", "nil", "#inst \"1970-01-01T00:00:00Z\"", "#uuid \"00000000-0000-0000-0000-000000000001\"", ":db.type/long", ":db.cardinality/many", "9223372036854775807", "x", "{:t/_r 1}", "[{:t/l 1} {:t/l 2}]",
        "#instmicros 9223372036854775807", "#instmicros -9223372036854775808", "#instmillis 9223372036854775807", "#inst \"9999-12-31T23:59:60Z\"", "#inst \"-262144-01-01T00:00:00Z\"", "1e400", "-0.0", "0xFFFFFFFFFFFFFFFF", "\"\\u{0}\"", ":t.u-v/w!x*$%&=<>?", "-9223372036854775808",
    ]
    .iter()
    .map(|s| s.replace("{a}", &a.to_string()))
    .collect()
}

const ATTRS: &[&str] = &[":t/l", ":t/lm", ":t/d", ":t/b", ":t/r", ":t/rm", ":t/s", ":t/k", ":t/i", ":t/u", ":t/f", ":t/nope", ":t/_r", ":t/_l", ":t/_nope", "99999999", "65536", "-1", ":db/ident", ":db/valueType", ":db/cardinality", ":db/unique", ":db/index", ":db/fulltext", ":db/isComponent", ":db/noHistory", ":db/txInstant", ":db.schema/version", ":db.install/attribute", ":db/id", ":db/tx"];

fn transactions(ctx: &Ctx) {
    let ne = 18;
    let n = terms(0).len();
    ctx.par_with(ne * ATTRS.len(), make, |st, i| {
        let t = terms(st.ids.a);
        let (e, a) = (&t[i % ne], ATTRS[i / ne]);
        for v in &t {
            for op in &[":db/add", ":db/retract"] {
                if a.starts_with(":t/_") {
                    transaction(ctx, st, &format!("[[{} {} {} {}]]", op, v, a, e));
                } else {
                    transaction(ctx, st, &format!("[[{} {} {} {}]]", op, e, a, v));
                }
            }
        }
        transaction(ctx, st, &format!("[[:db/retractEntity {}]]", e));
        transaction(ctx, st, &format!("[[:db/retractAttribute {} {}]]", e, a));
        ctx.state(1);
    });
    let entries: Vec<String> = vec![
        ":db/id \"t\"", ":db/id 65536", ":db/id -1", ":db/id :t/nope", ":db/id (lookup-ref :t/s \"x\")", ":db/id (lookup-ref :t/s \"y\")", ":db/id (transaction-tx)", ":db/id (nope)", ":db/id true", ":db/id [1]", ":db/id {:t/l 1}", ":db/id nil", ":t/l 5", ":t/lm [1 2]", ":t/lm []", ":t/r \"u\"", ":t/r {:t/l 7}",
        ":t/r {}", ":t/rm [{:t/l 8} {:t/s \"x\"}]", ":t/_r \"u\"", ":t/_r {:t/l 9}", ":t/_rm [1 2]", ":t/_rm 65536", ":t/s \"x\"", ":t/s \"new\"", ":t/f \"it's\"", ":t/nope 1", ":db/ident :t/new", ":db/ident :t/l", ":db/valueType :db.type/long", ":db/valueType :db.type/string", ":db/cardinality :db.cardinality/one",
        ":db/unique :db.unique/identity", ":db/fulltext true", ":db/index true", ":db/isComponent true", ":t/_nope 1", ":t/_l 1", ":db/doc \"d\"",
    ]
    .into_iter()
    .map(|s| s.to_string())
    .collect();
    let mut maps: Vec<Vec<usize>> = vec![vec![]];
    maps.extend(subsets(entries.len(), if ctx.thorough { 4 } else { 3 }));
    ctx.par_with(maps.len() / 8 + 1, make, |st, i| {
        for m in maps.iter().skip(i * 8).take(8) {
            let body = m.iter().map(|e| entries[*e].as_str()).collect::<Vec<_>>().join(" ");
            transaction(ctx, st, &format!("[{{{}}}]", body));
        }
        ctx.state(1);
    });
    let few: Vec<&str> = vec![
        "[:db/add \"t\" :t/l 1]", "[:db/add \"t\" :t/l 2]", "[:db/add \"t\" :t/s \"x\"]", "[:db/add \"t\" :t/s \"y\"]", "[:db/add \"u\" :t/s \"y\"]", "[:db/add \"t\" :t/r \"u\"]", "[:db/add \"u\" :t/r \"t\"]", "[:db/add \"t\" :t/r \"t\"]", "[:db/add {a} :t/l 1]", "[:db/add {a} :t/l 2]", "[:db/retract {a} :t/l 1]", "[:db/retract {a} :t/l 2]",
        "[:db/retract {a} :t/s \"x\"]", "[:db/add {a} :t/s \"y\"]", "[:db/add :t/l :db/ident :t/z]", "[:db/add :t/z :t/l 1]", "[:db/retract :t/l :db/ident :t/l]", "[:db/add :t/l :db/cardinality :db.cardinality/many]", "[:db/add :t/lm :db/cardinality :db.cardinality/one]", "[:db/add :t/l :db/valueType :db.type/string]", "[:db/retract :t/l :db/valueType :db.type/long]",
        "[:db/add :t/s :db/unique :db.unique/value]", "[:db/retract :t/s :db/unique :db.unique/identity]", "[:db/add :t/l :db/index true]", "[:db/add :t/m :db/unique :db.unique/value]", "[:db/add (transaction-tx) :db/txInstant #inst \"2020-01-01T00:00:00Z\"]", "[:db/add (transaction-tx) :t/l 1]", "[:db/add \"t\" :t/r (transaction-tx)]",
        "[:db/add (lookup-ref :t/s \"x\") :t/l 9]", "[:db/add (lookup-ref :t/s \"y\") :t/l 9]", "{:db/ident :t/n :db/valueType :db.type/long :db/cardinality :db.cardinality/one}", "{:db/ident :t/n :db/valueType :db.type/ref}", "{:db/ident :t/n :db/cardinality :db.cardinality/one}", "{:db/id \"t\" :db/ident :t/n}", "{:t/s \"x\" :t/l 4}", "{:t/s \"x\" :t/r {:t/s \"x\"}}",
        "{:db/id \"t\" :t/rm [\"u\" {:t/l 4}]}", "[:db/add {a} :t/f \"x\"]", "[:db/retract {a} :t/f \"x y\"]", "[:db/retractEntity {a}]", "[:db/retractEntity :t/l]", "[:db/add :db/ident :db/ident :db/z]", "[:db/retract :db/ident :db/ident :db/ident]", "[:db/add \"t\" :db/ident :db.part/user]", "[:db/retractEntity (transaction-tx)]",
    ];
    let mut lists: Vec<Vec<usize>> = sequences(few.len(), 2).collect();
    if ctx.thorough {
        lists.extend(sequences(few.len(), 3));
    }
    ctx.par_with(lists.len() / 8 + 1, make, |st, i| {
        for l in lists.iter().skip(i * 8).take(8) {
            let body = l.iter().map(|e| few[*e].replace("{a}", &st.ids.a.to_string())).collect::<Vec<_>>().join(" ");
            transaction(ctx, st, &format!("[{}]", body));
        }
        ctx.state(1);
    });
}

// ---------------------------------------------------------------- pulls, lookups, caches, savepoints

fn requests(ctx: &Ctx) {
    let attrs = ["t/l", "t/lm", "t/d", "t/b", "t/r", "t/rm", "t/s", "t/k", "t/i", "t/u", "t/f", "t/nope", "db/ident", "db/id", "plain", "db/txInstant"];
    let ents = |ids: &Ids| vec![ids.a, ids.b, ids.c, ids.tx, -1, 0, 1, 99999999, i64::max_value(), i64::min_value()];
    ctx.par_with(attrs.len() * attrs.len(), make, |st, i| {
        let (a, b) = (attrs[i / attrs.len()], attrs[i % attrs.len()]);
        for e in ents(&st.ids) {
            let case = format!("r {} {} {}", a, b, e);
            if !ctx.want(&case) {
                continue;
            }
            ctx.trace(1);
            let got = guard(|| {
                for d in &st.dbs {
                    let schema = d.conn.current_schema();
                    let id = |k: &str| -> i64 { schema.get_entid(&kw(k)).map(|x| x.into()).unwrap_or(99999999) };
                    ctx.transition(6);
                    let p = d.conn.pull_attributes_for_entity(&d.sql, e, vec![id(a), id(b)]).is_ok();
                    let ps = d.conn.pull_attributes_for_entities(&d.sql, vec![e, st.ids.a, e], vec![id(a), id(b)]).is_ok();
                    let l = d.conn.lookup_value_for_attribute(&d.sql, e, &kw(a)).is_ok();
                    let ls = d.conn.lookup_values_for_attribute(&d.sql, e, &kw(b)).is_ok();
                    ctx.outcome(&("r", p, ps, l, ls));
                    let _ = d.conn.pull_attributes_for_entity(&d.sql, e, vec![]);
                    let _ = d.conn.pull_attributes_for_entities(&d.sql, vec![], vec![id(a)]);
                }
            });
            if let Err(p) = got {
                ctx.violation("C24/request", case, format!("pulling or looking up :{} and :{} of {}: {}", a, b, e, p));
            }
        }
        if let Err(e) = st.check() {
            ctx.violation("C24/request", format!("r {} {}", a, b), e);
        }
        ctx.state(1);
    });
    // Caching two attributes in turn, and asking for them.
    let dirs = [CacheDirection::Forward, CacheDirection::Reverse, CacheDirection::Both];
    let n = attrs.len() * dirs.len() * 2;
    ctx.par_with(n, || (make(), make()), |(base, st), i| {
        for j in 0..n {
            let case = format!("c {} {}", i, j);
            if !ctx.want(&case) {
                continue;
            }
            ctx.trace(1);
            let mut what = vec![];
            let got = guard(|| {
                for k in &[i, j] {
                    let (a, dir, act) = (attrs[k / 6], dirs[k / 2 % 3], if k % 2 == 0 { CacheAction::Register } else { CacheAction::Deregister });
                    what.push(format!("{} {:?} {:?}", a, k / 2 % 3, k % 2));
                    for d in st.dbs.iter_mut() {
                        ctx.transition(1);
                        let schema = d.conn.current_schema().clone();
                        let r = d.conn.cache(&mut d.sql, &schema, &kw(a), dir, act).is_ok();
                        ctx.outcome(&("c", r));
                        let _ = d.conn.lookup_value_for_attribute(&d.sql, base.ids.a, &kw(a));
                        let _ = d.conn.lookup_values_for_attribute(&d.sql, 99999999, &kw(a));
                        for q in &["[:find ?v . :where [65540 :{} ?v]]", "[:find ?e . :where [?e :{} \"x\"]]", "[:find ?e . :where [?e :{} 1]]", "[:find ?e . :where [?e :{} :t/l]]", "[:find ?e ?v :where [?e :{} ?v]]"] {
                            let _ = d.conn.q_once(&d.sql, &q.replace("{}", a), None);
                        }
                    }
                }
            });
            let got = got.and_then(|_| guard(|| st.check()).and_then(|r| r));
            if let Err(p) = got {
                ctx.violation("C24/cache", case, format!("{:?}: {}", what, p));
            }
            for (k, d) in st.dbs.iter_mut().enumerate() {
                *d = base.dbs[k].fork();
            }
        }
        ctx.state(1);
    });
    // Savepoints of every name in every order.
    let ops = ["savepoint a", "savepoint b", "rollback a", "rollback b", "release a", "release nope", "savepoint ''", "good", "bad", "savepoint it's", "release it's", "rollback ''"];
    let lists: Vec<Vec<usize>> = sequences(ops.len(), if ctx.thorough { 5 } else { 4 }).collect();
    ctx.par_with(lists.len() / 16 + 1, make, |st, i| {
        for l in lists.iter().skip(i * 16).take(16) {
            let names: Vec<&str> = l.iter().map(|o| ops[*o]).collect();
            let case = format!("s {}", names.join(","));
            if !ctx.want(&case) {
                continue;
            }
            ctx.trace(1);
            let d = &mut st.dbs[1];
            let (sql, conn) = (&mut d.sql, &mut d.conn);
            let got = guard(|| -> Result<(), String> {
                let mut ip = conn.begin_transaction(sql).map_err(|e| e.to_string())?;
                let mut broken = false;
                for o in &names {
                    ctx.transition(1);
                    let arg = o.split(' ').nth(1).unwrap_or("");
                    let arg = if arg == "''" { "" } else { arg };
                    let r = match o.split(' ').next().unwrap() {
                        "savepoint" => ip.savepoint(arg).is_ok(),
                        "rollback" => ip.rollback_savepoint(arg).is_ok(),
                        "release" => ip.release_savepoint(arg).is_ok(),
                        "good" if !broken => {
                            ip.transact("[[:db/add \"new\" :t/b true]]").map_err(|e| format!("after a savepoint: {}", e))?;
                            true
                        }
                        "good" => false,
                        _ => {
                            broken = true;
                            ip.transact("[[:db/add \"new\" :t/b 5]]").is_ok()
                        }
                    };
                    ctx.outcome(&("s", o, r));
                    ip.q_once("[:find ?e ?v :where [?e :t/b ?v]]", None).map_err(|e| format!("after {}: {}", o, e))?;
                }
                Ok(())
            })
            .and_then(|r| r);
            let got = got.and_then(|_| if state(&st.dbs[1]) == st.before[1] { Ok(()) } else { Err("it leaves traces".to_string()) });
            if let Err(p) = got {
                ctx.violation("C24/savepoint", case, format!("{:?}: {}", names, p));
                *st = make();
            }
        }
        ctx.state(1);
    });
}

pub fn run(ctx: &Ctx) {
    let _quiet = Quiet::new();
    for (name, part) in &[("patterns", patterns as fn(&Ctx)), ("functions", functions), ("clauses", clauses), ("finds", finds), ("inputs", inputs), ("transactions", transactions), ("requests", requests)] {
        let t = ctx.elapsed();
        if std::env::var("MC_PART").map(|p| p != *name).unwrap_or(false) {
            continue;
        }
        part(ctx);
        if std::env::var("MC_TIMES").is_ok() {
            eprintln!("{}: {:.1} s", name, ctx.elapsed() - t);
        }
    }
}
