//! C26: the command line does what is typed.
use crate::db::*;
use crate::h::*;
use crate::val::kw;
use mentat::{Binding, CacheDirection, QueryExplanation, QueryResults, Queryable, Store, TypedValue};
use mentat_cli::command_parser::{command, Command};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::Stdio;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "(1) every text a line can be, over an alphabet of command names, near-names, separators and arguments, is read by the parser of the real REPL and by an independent one; (2) every session of lines over an alphabet (transactions, queries of all forms, prepared and explained, imports, opening, closing, caching, timing, help, incomplete and continued input, errors) is typed into the real program in a process of its own, line by line, and every answer, the exit status and the resulting database files are compared with those of the same steps made through the library; (3) every sequence of startup options in all their spellings, likewise",
        bounds: "(1) names x up to 3 pieces of argument; (2) all sessions of 2 lines over the whole alphabet from 3 prefixes, of 3 lines over a reduced one (thorough: of 3 over the whole); (3) all sequences of up to 3 (thorough: 4) options",
        assumptions: vec!["input is not a terminal", "paths have no white space", "what a command prints is compared up to spaces and times"],
    }
}

// ---------------------------------------------------------------- (1) the parser

/// What a line means, from the help text and the tests.
fn meaning(line: &str) -> Option<Command> {
    let s = line.trim_start();
    let s = if s.starts_with('.') { &s[1..] } else { return None };
    let end = s.find(|c: char| !(c.is_ascii_lowercase() || c == '_')).unwrap_or_else(|| s.len());
    let (name, rest) = s.split_at(end);
    let edn = || -> Option<String> {
        let r = rest.trim_start();
        if r.starts_with('[') || r.starts_with('{') {
            Some(r.to_string())
        } else {
            None
        }
    };
    match name {
        "q" | "query" => return edn().map(Command::Query),
        "eq" | "explain_query" => return edn().map(Command::QueryExplain),
        "query_prepared" => return edn().map(Command::QueryPrepared),
        "t" | "transact" => return edn().map(Command::Transact),
        _ => {}
    }
    if !rest.is_empty() && !rest.starts_with(char::is_whitespace) {
        return None;
    }
    let args: Vec<String> = rest.split_whitespace().map(|s| s.to_string()).collect();
    let n = args.len();
    match (name, n) {
        ("help", _) => Some(Command::Help(args)),
        ("close", 0) => Some(Command::Close),
        ("exit", 0) | ("e", 0) => Some(Command::Exit),
        ("schema", 0) => Some(Command::Schema),
        ("open", 1) => Some(Command::Open(args[0].clone())),
        ("open_encrypted", 2) => Some(Command::OpenEncrypted(args[0].clone(), args[1].clone())),
        ("import", 1) | ("i", 1) => Some(Command::Import(args[0].clone())),
        ("sync", 2) => Some(Command::Sync(args)),
        ("timer", 1) => match args[0].as_str() {
            "on" => Some(Command::Timer(true)),
            "off" => Some(Command::Timer(false)),
            _ => None,
        },
        ("cache", 2) => {
            let d = match args[1].as_str() {
                "forward" => CacheDirection::Forward,
                "reverse" => CacheDirection::Reverse,
                "both" => CacheDirection::Both,
                _ => return None,
            };
            Some(Command::Cache(args[0].clone(), d))
        }
        _ => None,
    }
}

fn parser(ctx: &Ctx) {
    let names = [
        "help", "close", "exit", "e", "schema", "open", "open_encrypted", "import", "i", "sync", "timer", "cache", "query", "q", "explain_query", "eq", "query_prepared", "transact", "t", "", "x", "que", "opens", "openx", "ix", "im", "tr", "timeron", "timero", "syncs", "cacheforward", "helpme", "query_", "query_preparedx", "explain", "exitt", "closes", "schemas", "Q", "open_", "open_encrypte", "opener", "imports",
    ];
    let pieces: &[&str] = &["", " ", "\t", "\n", "\r\n", " a", " :a/b", " forward", " reverse", " both", " bothx", " on", " off", " offx", "on", "forward", "a", "[", " [", "[:find ?x]", " {}", "{", "\n[[", "(", " ]", "\"", " \u{e9}", ".", " .x", "1"];
    let fronts = [".", " .", "", "..", ". ", "\t.", "x."];
    let n = pieces.len();
    ctx.par(fronts.len() * names.len(), |j| {
        let (front, name) = (fronts[j % fronts.len()], names[j / fronts.len()]);
        if !ctx.want("parse") {
            return;
        }
        for i in 0..n * n * n {
            let (x, y, z) = (pieces[i % n], pieces[i / n % n], pieces[i / n / n]);
            // Empty pieces last only, so that every text occurs once.
            if x.is_empty() && !y.is_empty() || y.is_empty() && !z.is_empty() || front != "." && front != " ." && !y.is_empty() {
                continue;
            }
            let text = format!("{}{}{}{}{}", front, name, x, y, z);
            ctx.transition(1);
            let want = meaning(&text);
            let got = guard(|| command(&text).map_err(|e| e.to_string()));
            let bad = match (&want, &got) {
                (Some(w), Ok(Ok(g))) => w != g,
                (None, Ok(Err(_))) => false,
                _ => true,
            };
            if bad {
                ctx.violation(format!("C26/parse/{}", name), "parse", format!("{:?} is read as {:?}, but means {:?}", text, got, want));
            }
            if let Some(w) = want {
                ctx.count("lines understood", 1);
                // What is echoed is read as the same, for one argument.
                let echo = w.output();
                let plain = match &w {
                    Command::Help(_) | Command::Sync(_) | Command::Cache(..) => false,
                    Command::Timer(_) => false,
                    _ => true,
                };
                if plain && command(&echo).ok().as_ref() != Some(&w) {
                    ctx.violation(format!("C26/echo/{}", name), "parse", format!("{:?} is echoed as {:?}", w, echo));
                }
                // Done when what it wants as argument is all there.
                let done = match &w {
                    Command::Query(a) | Command::QueryExplain(a) | Command::QueryPrepared(a) | Command::Transact(a) => closed(a),
                    _ => Some(true),
                };
                if done.map(|d| d != w.is_complete()).unwrap_or(false) {
                    ctx.violation(format!("C26/complete/{}", name), "parse", format!("{:?}: complete is said to be {}", text, w.is_complete()));
                }
            }
        }
    });
}

/// Whether the text is one bracketed form, for texts of the alphabets: None where it is neither a
/// form nor the beginning of one.
fn closed(s: &str) -> Option<bool> {
    let mut stack = vec![];
    let (mut string, mut esc) = (false, false);
    let mut over = false;
    for c in s.chars() {
        if string {
            match c {
                _ if esc => esc = false,
                '\\' => esc = true,
                '"' => string = false,
                _ => {}
            }
            continue;
        }
        if over && !c.is_whitespace() {
            return Some(false);
        }
        match c {
            '"' => string = true,
            '[' | '{' | '(' => stack.push(c),
            ']' | '}' | ')' => {
                let open = match c {
                    ']' => '[',
                    '}' => '{',
                    _ => '(',
                };
                if stack.pop() != Some(open) {
                    return Some(false);
                }
                over = stack.is_empty();
            }
            _ => {}
        }
    }
    if string || !stack.is_empty() {
        return Some(false);
    }
    // Odd atoms and odd maps are up to the EDN parser.
    match s.trim() {
        "{}" | "[]" | "[:find ?x]" => Some(true),
        _ => None,
    }
}

// ---------------------------------------------------------------- (2) sessions

fn scratch() -> PathBuf {
    let base = if Path::new("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
    base.join(format!("mentat-mc-cli-{}", std::process::id()))
}

/// What the program is expected to print in answer to one line.
enum Exp {
    Nothing,
    /// Up to spaces outside strings; the part after the marker, if any, is not compared.
    Lines(Vec<String>),
    /// The rows in any order.
    Table(Vec<String>, Vec<String>),
    /// Some message that starts like this, and no table.
    Error(String),
}

struct Answer {
    exp: Exp,
    /// Lines of times to expect before and after.
    prepare: bool,
    run: bool,
}

fn plain(exp: Exp) -> Answer {
    Answer { exp, prepare: false, run: false }
}

/// Without spaces outside strings.
fn squeeze(s: &str) -> String {
    let mut out = String::new();
    let (mut string, mut esc) = (false, false);
    for c in s.chars() {
        if string {
            match c {
                _ if esc => esc = false,
                '\\' => esc = true,
                '"' => string = false,
                _ => {}
            }
            out.push(c);
        } else if !c.is_whitespace() {
            if c == '"' {
                string = true;
            }
            out.push(c);
        }
    }
    out
}

/// Without colours.
fn bare(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for c in &mut it {
                if c == 'm' {
                    break;
                }
            }
        } else {
            out.push(c);
        }
    }
    out
}

fn show(b: &Binding) -> String {
    match b {
        Binding::Scalar(v) => match v {
            TypedValue::Boolean(b) => b.to_string(),
            TypedValue::Double(d) => format!("{}", d.into_inner()),
            TypedValue::Long(l) => l.to_string(),
            TypedValue::Ref(r) => r.to_string(),
            TypedValue::String(s) => format!("{:?}", s.as_str()),
            TypedValue::Keyword(k) => format!(":{}/{}", k.namespace().unwrap_or(""), k.name()),
            TypedValue::Uuid(u) => format!("{}", u.to_hyphenated()),
            TypedValue::Instant(i) => i.format("%Y-%m-%d %H:%M:%S%.f UTC").to_string(),
        },
        Binding::Vec(v) => format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", ")),
        Binding::Map(m) => format!("{{{}}}", m.0.iter().map(|(k, v)| format!(":{}/{} {}", k.namespace().unwrap_or(""), k.name(), show(v))).collect::<Vec<_>>().join(", ")),
    }
}

/// The name of the error.
fn kind<T: std::fmt::Debug>(e: &T) -> String {
    format!("{:?}", e).chars().take_while(|c| c.is_alphanumeric()).collect()
}

/// Queries, with the columns of their tables.
const QUERIES: &[(&str, &[&str])] = &[
    ("[:find ?v . :where [?e :a/l ?v] [?e :a/s \"one\"]]", &["?v"]),
    ("[:find ?e ?s :where [?e :a/s ?s]]", &["?e", "?s"]),
    ("[:find [?v ...] :where [_ :a/l ?v]]", &["?v"]),
    ("[:find [?e ?d] :where [?e :a/d ?d]]", &["?e", "?d"]),
    ("[:find (pull ?e [*]) . :where [?e :a/s \"one\"]]", &["(pull ?e [*])"]),
    ("[:find (count ?e) (max ?v) :where [?e :a/l ?v]]", &["(count ?e)", "(max ?v)"]),
    ("[:find ?b ?k ?i ?u :where [?e :a/b ?b] [?e :a/k ?k] [?e :a/i ?i] [?e :a/u ?u]]", &["?b", "?k", "?i", "?u"]),
    ("[:find ?x :where [?x :no/such 1]]", &["?x"]),
    ("[:find ?x :where]", &["?x"]),
    ("{:find ?x}", &["?x"]),
    ("[:find ?x ?y :where [?x :a/l 1]]", &["?x", "?y"]),
    ("[:find ?a :where [?a :db/valueType :db.type/long] [?a :db/ident :a/l]]", &["?a"]),
];

const SCHEMA: &str = "[{:db/ident :a/l :db/valueType :db.type/long :db/cardinality :db.cardinality/many} {:db/ident :a/s :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/unique :db.unique/identity} {:db/ident :a/d :db/valueType :db.type/double :db/cardinality :db.cardinality/one} {:db/ident :a/b :db/valueType :db.type/boolean :db/cardinality :db.cardinality/one} {:db/ident :a/k :db/valueType :db.type/keyword :db/cardinality :db.cardinality/one} {:db/ident :a/i :db/valueType :db.type/instant :db/cardinality :db.cardinality/one} {:db/ident :a/u :db/valueType :db.type/uuid :db/cardinality :db.cardinality/one}]";
const DATA: &str = "[{:db/id \"e\" :a/l [1 -5 9007199254740993] :a/s \"one\" :a/d 16777217.25 :a/b true :a/k :x/y :a/i #inst \"2020-02-03T04:05:06.007Z\" :a/u #uuid \"00000000-0000-0000-0000-00000000000a\"} {:db/id \"f\" :a/l 1 :a/d 1e300 :a/s \"t|w  o \\\"\\n}\"}]";

/// The lines of the sessions.
fn lines() -> Vec<String> {
    let mut v: Vec<String> = vec![
        format!(".t {}", SCHEMA),
        format!(".transact {}", DATA),
        ".t [[:db/add \"e\" :a/l \"bad\"]]".into(),
        ".t [[:db/add \"e\" :a/s \"one\"] [:db/add \"e\" :a/l 7]]".into(),
        ".t [[:db/add \"e\" ; more".into(),
        " :db/doc \"two lines\"]]".into(),
        "]".into(),
        ".q [:find ?x; more".into(),
        ".query_prepared [:find ?e".into(),
        ".eq [:find ?e ; more".into(),
        " :where [?e :db/doc \"two lines\"]]".into(),
        ".open x.db".into(),
        ".open y.db".into(),
        ".open missing/z.db".into(),
        ".open junk".into(),
        ".open".into(),
        ".close".into(),
        ".timer on".into(),
        ".timer off".into(),
        ".schema".into(),
        ".cache :a/l forward".into(),
        ".cache :a/s both".into(),
        ".cache :no/such reverse".into(),
        ".cache bad both".into(),
        ".import imp.edn".into(),
        ".i none.edn".into(),
        ".import bad.edn".into(),
        ".exit".into(),
        ".e".into(),
        "".into(),
        " ".into(),
        ".help".into(),
        ".help query .transact".into(),
        ".help nosuch".into(),
        "nonsense".into(),
        ".open_encrypted x.db key".into(),
        ".sync http://127.0.0.1:1 00000000-0000-0000-0000-000000000001".into(),
        ".sync http://127.0.0.1:1 nouuid".into(),
    ];
    for (i, (q, _)) in QUERIES.iter().enumerate() {
        v.push(format!("{} {}", [".q", ".query", " .q  "][i % 3], q));
        if [1, 4, 5, 7, 8].contains(&i) {
            v.push(format!(".query_prepared {}", q));
        }
        if [0, 1, 5, 7, 10].contains(&i) {
            v.push(format!("{} {}", [".eq", ".explain_query"][i % 2], q));
        }
    }
    v
}

/// The program's state, kept through the library.
struct Twin {
    dir: PathBuf,
    path: String,
    store: Store,
    timer: bool,
    pending: Option<(String, Command)>,
}

const IMPORT: &str = "; [[:db/add \"no\" :db/doc \"no\"]]\n[[:db/add \"e\" :db/doc ; to the end\n  \"imported\n; not a comment\n\\tline\"]]\n";

impl Twin {
    fn new(dir: &Path) -> Twin {
        Twin { dir: dir.to_path_buf(), path: String::new(), store: Store::open("").expect("store"), timer: false, pending: None }
    }
    fn name(&self) -> String {
        if self.path.is_empty() {
            "in-memory db".into()
        } else {
            self.path.clone()
        }
    }
    fn transact(&mut self, t: &str) -> Exp {
        let r = self.store.begin_transaction().and_then(|mut ip| {
            let r = ip.transact(t)?;
            ip.commit()?;
            Ok(r)
        });
        match r {
            Ok(r) => Exp::Lines(vec![format!("TxReport {{ tx_id: {}, tx_instant: ~, tempids: {:?} }}", r.tx_id, r.tempids)]),
            Err(e) => Exp::Error(format!("Error: {}", kind(&e))),
        }
    }
    fn table(&self, q: &str, r: QueryResults) -> Exp {
        let heads: Vec<String> = QUERIES.iter().find(|x| x.0 == q).map(|x| x.1.iter().map(|s| s.to_string()).collect()).unwrap_or_else(|| vec!["?e".into()]);
        let row = |bs: &[Binding]| format!("{}|", bs.iter().map(|b| format!("| {}", show(b))).collect::<String>());
        let rule = "---".repeat(heads.len());
        let rows = match r {
            QueryResults::Scalar(o) => o.iter().map(|b| row(&[b.clone()])).collect(),
            QueryResults::Tuple(o) => o.iter().map(|b| row(b)).collect(),
            QueryResults::Coll(v) => v.iter().map(|b| row(&[b.clone()])).collect(),
            QueryResults::Rel(r) => r.rows().map(|b| row(b)).collect(),
        };
        Exp::Table(vec![format!("{}|", heads.iter().map(|h| format!("| {}", h)).collect::<String>()), rule], rows)
    }
    /// Carry out a command. None: the session ends.
    fn perform(&mut self, c: Command) -> Option<Answer> {
        let timer = self.timer;
        let timed = |exp: Exp| Answer { exp, prepare: false, run: timer };
        Some(match c {
            Command::Exit => return None,
            Command::Help(args) => plain(match args.first() {
                None => Exp::Lines(vec!["help".into()]),
                Some(a) if a == "nosuch" => Exp::Error("Unrecognised".into()),
                Some(_) => Exp::Lines(vec!["help of".into()]),
            }),
            Command::Timer(on) => {
                self.timer = on;
                plain(Exp::Nothing)
            }
            Command::Schema => plain(Exp::Lines(self.store.conn().current_schema().to_edn_value().to_pretty(120).expect("pretty").lines().map(|s| s.to_string()).collect())),
            Command::Cache(a, d) => plain(match a.as_str() {
                "bad" => Exp::Error("Invalid attribute".into()),
                a => match self.store.cache(&kw(&a[1..]), d) {
                    Ok(()) => Exp::Nothing,
                    Err(_) => Exp::Error("Couldn't cache".into()),
                },
            }),
            Command::Open(p) => plain(self.open(&p)),
            Command::OpenEncrypted(..) => plain(Exp::Error("".into())),
            Command::Sync(_) => plain(Exp::Error("".into())),
            Command::Close => {
                let n = self.name();
                self.path = String::new();
                self.store = Store::open("").expect("store");
                plain(Exp::Lines(vec![format!("Database {:?} closed.", n)]))
            }
            Command::Import(p) => timed(match p.as_str() {
                "imp.edn" => self.transact(IMPORT),
                "bad.edn" => Exp::Error("Error: ".into()),
                p => Exp::Error(format!("Error reading file {}", p)),
            }),
            Command::Transact(t) => timed(self.transact(&t)),
            Command::Query(q) => timed(match self.store.q_once(q.as_str(), None) {
                Ok(o) => self.table(&q, o.results),
                Err(e) => Exp::Error(kind(&e)),
            }),
            Command::QueryPrepared(q) => match self.store.q_prepare(q.as_str(), None) {
                Ok(mut p) => {
                    let exp = match p.run(None) {
                        Ok(o) => self.table(&q, o.results),
                        Err(e) => Exp::Error(kind(&e)),
                    };
                    Answer { exp, prepare: timer, run: timer }
                }
                Err(e) => timed(Exp::Error(kind(&e))),
            },
            Command::QueryExplain(q) => plain(match self.store.q_explain(q.as_str(), None) {
                Err(e) => Exp::Error(kind(&e)),
                Ok(QueryExplanation::KnownConstant) => Exp::Lines(vec!["Query is known constant!".into()]),
                Ok(QueryExplanation::KnownEmpty(w)) => Exp::Lines(vec![format!("Query is known empty: {:?}", w)]),
                Ok(QueryExplanation::ExecutionPlan { query, steps }) => {
                    let mut v = vec![format!("SQL: {}", query.sql)];
                    if !query.args.is_empty() {
                        v.push("Bindings:".into());
                        v.extend(query.args.iter().map(|(n, x)| format!("{} = {:?}", n, *x)));
                    }
                    v.push("Plan: select id | order | from | detail".into());
                    v.extend(steps.iter().map(|s| format!("{}|{}|{}|{}", s.select_id, s.order, s.from, s.detail)));
                    Exp::Lines(v)
                }
            }),
        })
    }
    fn open(&mut self, p: &str) -> Exp {
        if self.path == p && !self.path.is_empty() {
            return Exp::Lines(vec![format!("Database {:?} opened", p)]);
        }
        match Store::open(self.dir.join(p).to_str().expect("utf-8")) {
            Ok(s) => {
                self.store = s;
                self.path = p.to_string();
                Exp::Lines(vec![format!("Database {:?} opened", p)])
            }
            Err(_) => Exp::Error("".into()),
        }
    }
    /// A line is typed. None: the session ends; otherwise whether the next prompt asks for more.
    fn line(&mut self, l: &str) -> Option<Answer> {
        let (text, cmd) = match self.pending.take() {
            Some((text, cmd)) => {
                let text = format!("{}\n{}", text, l);
                let more = |a: String| a + "\n" + l;
                let cmd = match cmd {
                    Command::Query(a) => Command::Query(more(a)),
                    Command::QueryPrepared(a) => Command::QueryPrepared(more(a)),
                    Command::QueryExplain(a) => Command::QueryExplain(more(a)),
                    Command::Transact(a) => Command::Transact(more(a)),
                    c => c,
                };
                (text, cmd)
            }
            None if l.is_empty() => return Some(plain(Exp::Nothing)),
            None => match meaning(l) {
                Some(c) => (l.to_string(), c),
                None => return Some(plain(Exp::Error("".into()))),
            },
        };
        let complete = match &cmd {
            Command::Query(a) | Command::QueryPrepared(a) | Command::QueryExplain(a) | Command::Transact(a) => edn::parse::value(a).is_ok(),
            _ => true,
        };
        if !complete {
            self.pending = Some((text, cmd));
            return Some(plain(Exp::Nothing));
        }
        self.perform(cmd)
    }
}

/// What was printed against what was expected.
fn compare(printed: &str, a: &Answer) -> Result<(), String> {
    let mut ls: Vec<&str> = printed.lines().filter(|l| !l.starts_with("CC known empty")).collect();
    let fail = |what: &str| Err(format!("{}; printed:\n{}", what, printed));
    if printed.contains("panicked") {
        return fail("it panicked");
    }
    if a.prepare {
        if ls.is_empty() || !ls[0].starts_with("Prepare time: ") {
            return fail("no time of preparation");
        }
        ls.remove(0);
    }
    if a.run {
        match ls.pop() {
            Some(l) if l.starts_with("Run time: ") => {}
            _ => return fail("no time"),
        }
    }
    if ls.iter().any(|l| l.starts_with("Run time: ") || l.starts_with("Prepare time: ")) {
        return fail("a time was printed");
    }
    match &a.exp {
        Exp::Nothing => {
            if !ls.is_empty() {
                return fail("nothing was expected");
            }
        }
        Exp::Error(p) => {
            let text = ls.join("\n");
            if text.is_empty() || !text.starts_with(p.as_str()) || ls[0].starts_with('|') || text.starts_with("TxReport") || text.starts_with("Sync report") || text.starts_with("Database") {
                return fail(&format!("an error {:?} was expected", p));
            }
        }
        Exp::Lines(v) if v[0] == "help" => {
            for n in ["help", "exit", "e", "open", "schema", "import", "query", "q", "query_prepared", "transact", "t", "explain_query", "eq", "timer", "cache", "sync"].iter() {
                if !ls.iter().any(|l| l.split_whitespace().next() == Some(&format!(".{}", n)[..]) && l.split_whitespace().count() > 3) {
                    return fail(&format!("no help on {}", n));
                }
            }
        }
        Exp::Lines(v) if v[0] == "help of" => {
            let names: Vec<&str> = ls.iter().filter_map(|l| l.split_whitespace().next()).collect();
            if names != [".query", ".transact"] {
                return fail("help on .query and .transact was expected");
            }
        }
        Exp::Lines(v) => {
            let mut got = ls.join("\n");
            if let (Some(i), Some(j)) = (got.find("tx_instant: "), got.find(", tempids: ")) {
                got.replace_range(i + 12..j, "~");
            }
            let got: String = got.split('\n').map(squeeze).collect::<Vec<_>>().join("\n");
            let want: String = v.iter().map(|l| squeeze(l)).collect::<Vec<_>>().join("\n");
            // (Tempids are in any order.)
            if got != want && !(v[0].starts_with("TxReport") && sorted(&got) == sorted(&want)) {
                return fail(&format!("expected:\n{}\n", v.join("\n")));
            }
        }
        Exp::Table(head, rows) => {
            let got: Vec<String> = ls.iter().map(|l| squeeze(l)).collect();
            let mut want: Vec<String> = rows.iter().map(|l| squeeze(l)).collect();
            want.sort();
            let n = got.len();
            let ok = n == want.len() + 3 && got[0] == squeeze(&head[0]) && got[1] == head[1] && got[n - 1] == head[1] && {
                let mut rows = got[2..n - 1].to_vec();
                rows.sort();
                rows == want
            };
            if !ok {
                return fail(&format!("expected the table\n{}\n{}\n{}\n", head[0], head[1], rows.join("\n")));
            }
        }
    }
    Ok(())
}

fn sorted(s: &str) -> Vec<char> {
    let mut v: Vec<char> = s.chars().collect();
    v.sort();
    v
}

/// The program's output, all of it, and its exit status.
fn program(dir: &Path, args: &[String], input: &str) -> Result<(String, i32), String> {
    let out = std::fs::File::create(dir.join("out")).map_err(|e| e.to_string())?;
    let err = out.try_clone().map_err(|e| e.to_string())?;
    let mut child = std::process::Command::new(std::env::current_exe().expect("own path"))
        .args(args)
        .env("MC_CLI", "1")
        .env("HOME", dir)
        .env_remove("RUST_LOG")
        .env_remove("RUST_BACKTRACE")
        .current_dir(dir)
        .stdin(Stdio::piped())
        .stdout(Stdio::from(out))
        .stderr(Stdio::from(err))
        .spawn()
        .map_err(|e| e.to_string())?;
    {
        let mut i = child.stdin.take().expect("stdin");
        let _ = i.write_all(input.as_bytes());
    }
    let start = std::time::Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if start.elapsed().as_secs() > 60 {
            let _ = child.kill();
            let _ = child.wait();
            return Err("the program does not end".into());
        }
        std::thread::sleep(std::time::Duration::from_micros(500));
    };
    let text = std::fs::read(dir.join("out")).map_err(|e| e.to_string())?;
    Ok((bare(&String::from_utf8_lossy(&text)), status.code().unwrap_or(-1)))
}

fn fresh(dir: &Path) {
    let _ = std::fs::remove_dir_all(dir);
    std::fs::create_dir_all(dir.join("cli")).expect("scratch");
    std::fs::create_dir_all(dir.join("lib")).expect("scratch");
    for d in ["cli", "lib"].iter() {
        std::fs::write(dir.join(d).join("junk"), "this is not a database, and long enough to be looked at as one: ".repeat(20)).expect("scratch");
    }
    std::fs::write(dir.join("cli/imp.edn"), IMPORT).expect("scratch");
    std::fs::write(dir.join("cli/bad.edn"), "[[:db/add").expect("scratch");
}

/// The databases left behind.
fn files(dir: &Path) -> Result<(), String> {
    for f in ["x.db", "y.db"].iter() {
        let (a, b) = (dir.join("cli").join(f), dir.join("lib").join(f));
        if a.exists() != b.exists() {
            return Err(format!("{} {}", f, if a.exists() { "was created" } else { "was not created" }));
        }
        if a.exists() {
            let d = |p: &Path| -> Result<Dump, String> { Ok(super::c08::mask(Db::open(p.to_str().unwrap())?.dump())) };
            let (x, y) = (d(&b)?, d(&a)?);
            if x != y {
                return Err(format!("{} is not as it would be:\n{}", f, super::c08::diff(&x, &y)));
            }
        }
    }
    Ok(())
}

/// Startup options and lines.
fn session(dir: &Path, args: &[String], start: Vec<Command>, input: &[String]) -> Result<usize, String> {
    fresh(dir);
    let mut all: Vec<String> = vec!["--no-tty".into()];
    all.extend(args.iter().cloned());
    let text: String = input.iter().map(|l| format!("{}\n", l)).collect();
    let (out, code) = program(&dir.join("cli"), &all, &text)?;
    let fail = |e: String| -> Result<usize, String> { Err(format!("{}\n(all output:)\n{}", e, out)) };
    if code != 0 {
        return fail(format!("exit status {}", code));
    }
    // Split at the prompts.
    let mut parts: Vec<(bool, String)> = vec![(false, String::new())];
    let mut rest = out.as_str();
    loop {
        let (a, b) = (rest.find("mentat=> "), rest.find("mentat.> "));
        let i = match (a, b) {
            (Some(x), Some(y)) => x.min(y),
            (Some(x), None) | (None, Some(x)) => x,
            (None, None) => break,
        };
        parts.last_mut().unwrap().1.push_str(&rest[..i]);
        parts.push((Some(i) == b, String::new()));
        rest = &rest[i + 9..];
    }
    parts.last_mut().unwrap().1.push_str(rest);
    let mut twin = Twin::new(&dir.join("lib"));
    // Startup: each command is echoed and answered.
    let mut s = parts[0].1.as_str();
    let n = start.len();
    for (i, c) in start.iter().enumerate() {
        let echo = format!("{}\n", c.output());
        if !s.starts_with(&echo) {
            return fail(format!("{:?} was to be carried out next on startup", c));
        }
        s = &s[echo.len()..];
        let end = if i + 1 < n { s.find(&format!("{}\n", start[i + 1].output())).unwrap_or_else(|| s.len()) } else { s.len() };
        let a = twin.perform(c.clone()).expect("goes on");
        if let Err(e) = compare(&s[..end], &a) {
            return fail(format!("on startup, {:?}: {}", c, e));
        }
        s = &s[end..];
    }
    if !s.trim().is_empty() {
        return fail("something more was done on startup".into());
    }
    let mut steps = 0;
    for l in input {
        steps += 1;
        let more = twin.pending.is_some();
        match parts.get(steps) {
            None => return fail(format!("the session ended before {:?}", l)),
            Some(p) if p.0 != more => return fail(format!("before {:?}, {} was asked for", l, if more { "a new command, not more," } else { "more, not a new command," })),
            Some(_) => {}
        }
        match twin.line(l) {
            Some(a) => {
                if let Err(e) = compare(&parts[steps].1, &a) {
                    return fail(format!("{:?}: {}", l, e));
                }
            }
            None => {
                if parts.len() != steps + 1 {
                    return fail(format!("the session did not end with {:?}", l));
                }
                drop(twin);
                files(dir).or_else(|e| fail(e).map(|_| ()))?;
                return Ok(steps);
            }
        }
    }
    if parts.len() != steps + 2 || !parts[steps + 1].1.trim().is_empty() {
        return fail("the session did not end with the input".into());
    }
    drop(twin);
    files(dir).or_else(|e| fail(e).map(|_| ()))?;
    Ok(steps)
}

fn run_one(ctx: &Ctx, dir: &Path, case: String, args: &[String], start: Vec<Command>, input: &[String]) {
    if !ctx.want(&case) || ctx.too_many() {
        return;
    }
    ctx.state(1);
    match guard(|| session(dir, args, start, input)).and_then(|r| r) {
        Ok(n) => {
            ctx.transition(n as u64);
            ctx.trace(1);
            ctx.sample("session", || format!("{:?} {:?}", args, input));
            ctx.outcome(&case);
        }
        Err(e) => ctx.violation(format!("C26/{}", case), case, format!("options {:?}\n  {}\n{}", args, input.join("\n  "), e)),
    }
}

fn sessions(ctx: &Ctx, root: &Path) {
    let al = lines();
    let n = al.len();
    let prefixes: Vec<Vec<String>> = vec![vec![], vec![al[0].clone(), al[1].clone()], vec![".open x.db".into(), al[0].clone(), al[1].clone(), ".timer on".into()]];
    // Of three lines: one of each kind.
    let few: Vec<usize> = [".t [{", ".transact [", ".t [[:db/add \"e\"", " :db/doc", ".open x.db", ".close", ".timer on", ".cache :a/l", ".import imp", ".q [:find ?v .", ".query [:find ?e ?s"].iter().map(|p| al.iter().rposition(|l| l.starts_with(p)).expect(p)).collect();
    let mut jobs: Vec<(usize, Vec<usize>)> = vec![];
    for p in 0..prefixes.len() {
        for a in 0..n {
            for b in 0..n {
                // Quick: from the first prefix, what needs no data.
                jobs.push((p, vec![a, b]));
            }
        }
    }
    if !ctx.thorough {
        jobs.retain(|(p, s)| *p == 1 || *p == 0 && s[0] < 5 || *p == 2 && (s[0] * n + s[1]) % 3 == 0 && s[0] < 40);
    }
    for s in sequences(few.len(), 3) {
        jobs.push((0, s.iter().map(|i| few[*i]).collect()));
    }
    if ctx.thorough {
        for s in sequences(n, 3) {
            jobs.push((1, s));
        }
    }
    ctx.par(jobs.len(), |j| {
        let (p, s) = &jobs[j];
        let mut input = prefixes[*p].clone();
        input.extend(s.iter().map(|i| al[*i].clone()));
        let case = format!("session|{}|{}", p, s.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        run_one(ctx, &root.join(format!("{:?}", std::thread::current().id())), case, &[], vec![], &input);
    });
}

// ---------------------------------------------------------------- (3) startup

fn startup(ctx: &Ctx, root: &Path) {
    let t2 = "[[:db/add \"e\" :a/l 3]]";
    let q1 = QUERIES[2].0;
    let q2 = QUERIES[1].0;
    let full = format!("[{}", &SCHEMA[1..]);
    #[derive(Clone)]
    enum What {
        Db(&'static str),
        Write(Command),
        Query(Command),
    }
    let w = |c: Command| What::Write(c);
    let opts: Vec<(Vec<String>, What)> = vec![
        (vec!["-d".into(), "x.db".into()], What::Db("x.db")),
        (vec!["-dy.db".into()], What::Db("y.db")),
        (vec!["-t".into(), full.clone()], w(Command::Transact(full.clone()))),
        (vec![format!("-t{}", t2)], w(Command::Transact(t2.into()))),
        (vec!["--transact".into(), DATA.into()], w(Command::Transact(DATA.into()))),
        (vec![format!("--transact={}", t2)], w(Command::Transact(t2.into()))),
        (vec!["-i".into(), "imp.edn".into()], w(Command::Import("imp.edn".into()))),
        (vec!["--import=imp.edn".into()], w(Command::Import("imp.edn".into()))),
        (vec!["-q".into(), q1.into()], What::Query(Command::Query(q1.into()))),
        (vec![format!("--query={}", q2)], What::Query(Command::Query(q2.into()))),
        (vec!["--query".into(), q1.into()], What::Query(Command::Query(q1.into()))),
        (vec![format!("-q{}", q2)], What::Query(Command::Query(q2.into()))),
    ];
    let mut jobs: Vec<Vec<usize>> = vec![];
    for d in 0..=(if ctx.thorough { 4 } else { 3 }) {
        jobs.extend(sequences(opts.len(), d));
    }
    if !ctx.thorough {
        // Three: one spelling of each.
        jobs.retain(|j| j.len() < 3 || j.iter().all(|i| [0, 2, 5, 6, 9, 10].contains(i)));
    }
    ctx.par(jobs.len(), |j| {
        let job = &jobs[j];
        let case = format!("startup|{}", job.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(","));
        let dir = root.join(format!("{:?}", std::thread::current().id()));
        let mut args = vec![];
        let mut dbs = vec![];
        let (mut writes, mut queries) = (vec![], vec![]);
        for i in job {
            args.extend(opts[*i].0.iter().cloned());
            match &opts[*i].1 {
                What::Db(p) => dbs.push(Command::Open(p.to_string())),
                What::Write(c) => writes.push(c.clone()),
                What::Query(c) => queries.push(c.clone()),
            }
        }
        if dbs.len() > 1 {
            // A second database is an error in the options.
            if !ctx.want(&case) {
                return;
            }
            ctx.state(1);
            fresh(&dir);
            match program(&dir.join("cli"), &args, "") {
                Ok((_, c)) if c != 0 && !dir.join("cli/x.db").exists() && !dir.join("cli/y.db").exists() => ctx.trace(1),
                r => ctx.violation(format!("C26/{}", case), case, format!("two databases: {:?}", r)),
            }
            return;
        }
        let mut start = dbs;
        start.extend(writes);
        start.extend(queries);
        run_one(ctx, &dir, case, &args, start, &[".q [:find [?v ...] :where [_ :a/l ?v]]".into()]);
    });
    // Options that end the program.
    for (i, (args, code, says)) in [(vec!["--help"], 0, "Usage"), (vec!["-h", "-d", "x.db"], 0, "Usage"), (vec!["-v"], 0, "mentat"), (vec!["--version", "-t", "[]"], 0, "mentat"), (vec!["--nonsense"], 1, "nonsense"), (vec!["-q"], 1, "q"), (vec!["-d", "x.db", "-t"], 1, "t")].iter().enumerate() {
        let case = format!("ends|{}", i);
        if !ctx.want(&case) {
            continue;
        }
        let dir = root.join("ends");
        fresh(&dir);
        ctx.state(1);
        let a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        match program(&dir.join("cli"), &a, ".open y.db\n") {
            Ok((out, c)) if c == *code && out.contains(says) && !out.contains("=>") && !dir.join("cli/x.db").exists() && !dir.join("cli/y.db").exists() => ctx.trace(1),
            r => ctx.violation(format!("C26/{}", case), case, format!("options {:?}: {:?}", args, r)),
        }
    }
}

pub fn run(ctx: &Ctx) {
    let part = |n: &str| std::env::var("MC_PART").map(|p| p == n).unwrap_or(true);
    let _quiet = Quiet::new();
    let root = scratch();
    if part("parser") {
        parser(ctx);
        ctx.note("parser_s", format!("{:.1}", ctx.elapsed()));
    }
    if part("sessions") {
        sessions(ctx, &root);
        ctx.note("sessions_s", format!("{:.1}", ctx.elapsed()));
    }
    if part("startup") {
        startup(ctx, &root);
    }
    let _ = std::fs::remove_dir_all(&root);
}
