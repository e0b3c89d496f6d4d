//! C21: EDN text round-trips, and every text is either parsed to its meaning or refused.
use crate::h::*;
use chrono::{DateTime, TimeZone, Utc};
use edn::{BigInt, OrderedFloat, Value};
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet, LinkedList};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every value over the atoms and shapes below is printed compactly and prettily at three widths and parsed again; every text over the alphabet, and every sequence of tokens under every separator, is parsed and compared with an independent reader; every token sequence of the entity and query grammars is parsed and must give a result or an error, the same one under each separator; and every triple of values is checked for the laws of a total order",
        bounds: "atoms: 75; values: depth <= 2, collections of <= 2 (quick) / 3 (thorough); texts of <= 4 (quick) / 5 (thorough) characters of 28; token sequences of <= 2 over 76 tokens (thorough 3); entity token sequences of <= 4 over 24, query token sequences of <= 3 (quick) / 4 (thorough) over 42, each in 5 contexts; keywords over 8 parts",
        assumptions: vec!["an atom with a misplaced '.' and an atom starting with a digit that is no number may be read as any symbol or refused", "duplicates in a set or map may be refused or merged", "years outside 0-9999 and names that cannot be written are not printed", "chrono's calendar and Rust's float parser are trusted"],
    }
}

/// What a text denotes.
#[derive(Clone, Debug, PartialEq)]
enum Means {
    This(Value),
    /// This, or refused.
    Maybe(Value),
    Anything,
    Nothing,
}

fn is_ws(c: char) -> bool {
    " \r\n\t,".contains(c)
}
fn ends(c: char) -> bool {
    is_ws(c) || "()[]{}\";".contains(c)
}
fn initial(c: char) -> bool {
    c.is_ascii_alphanumeric() || "*!_?$%&=<>".contains(c)
}
fn subsequent(c: char) -> bool {
    initial(c) || c == '+' || c == '-'
}
fn name(s: &str) -> bool {
    let mut cs = s.chars();
    cs.next().map_or(false, initial) && cs.all(subsequent)
}
fn namespace(s: &str) -> bool {
    let mut parts = s.split('.');
    parts.next().map_or(false, name) && parts.all(|p| !p.is_empty() && p.chars().all(subsequent))
}

fn number(s: &str) -> Option<Means> {
    use Means::*;
    let (neg, body) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let signed = body.len() != s.len();
    let digits = |t: &str| !t.is_empty() && t.bytes().all(|b| b.is_ascii_digit());
    let radix = |t: &str, r: u32| -> Means {
        let mut n: i128 = 0;
        for c in t.chars() {
            match c.to_digit(r) {
                Some(d) => n = n * r as i128 + d as i128,
                None => return Nothing,
            }
            if n > i64::MAX as i128 {
                return Nothing;
            }
        }
        This(Value::Integer(n as i64))
    };
    if body.ends_with('N') && digits(&body[..body.len() - 1]) {
        let mut n = BigInt::from(0);
        for b in body[..body.len() - 1].bytes() {
            n = n * 10 + (b - b'0');
        }
        return Some(This(Value::BigInteger(if neg { -n } else { n })));
    }
    if !signed {
        if let Some(i) = body.find('r') {
            if digits(&body[..i]) && body.len() > i + 1 && body[i + 1..].bytes().all(|b| b.is_ascii_alphanumeric()) && !body.starts_with('0') {
                let base: u32 = body[..i].parse().unwrap_or(99);
                if (2..=36).contains(&base) {
                    return Some(radix(&body[i + 1..], base));
                }
            }
        }
        if body.starts_with("0x") && body.len() > 2 && body[2..].bytes().all(|b| b.is_ascii_hexdigit()) {
            return Some(radix(&body[2..], 16));
        }
        if body.starts_with('0') && body.len() > 1 && body.bytes().all(|b| (b'0'..=b'7').contains(&b)) {
            return Some(radix(&body[1..], 8));
        }
    }
    if digits(body) {
        let mut n: i128 = 0;
        for b in body.bytes() {
            n = n * 10 + (b - b'0') as i128;
            if n > 1 << 100 {
                return Some(Nothing);
            }
        }
        let n = if neg { -n } else { n };
        if n < i64::MIN as i128 || n > i64::MAX as i128 {
            return Some(Nothing);
        }
        let v = Value::Integer(n as i64);
        // EDN has no decimal integers that begin with 0 but 0 itself; they may be read or refused.
        return Some(if body.starts_with('0') && body.len() > 1 && !signed { Maybe(v) } else { This(v) });
    }
    // digits [. digits] [e [sign] digits]
    let (m, e) = match body.find(|c| c == 'e' || c == 'E') {
        Some(i) => (&body[..i], Some(body[i + 1..].trim_start_matches(|c| c == '+' || c == '-'))),
        None => (body, None),
    };
    if let (Some(i), Some(rest)) = (body.find(|c| c == 'e' || c == 'E'), e) {
        if body.len() - i - 1 > rest.len() + 1 {
            return None;
        }
    }
    let ok = match m.find('.') {
        Some(i) => digits(&m[..i]) && digits(&m[i + 1..]),
        None => digits(m),
    } && e.map_or(true, digits);
    if ok {
        let f: f64 = s.parse().ok()?;
        let v = Value::Float(OrderedFloat(f));
        let leading = body.starts_with('0') && body[1..].starts_with(|c: char| c.is_ascii_digit());
        return Some(if !f.is_finite() {
            Anything
        } else if leading {
            Maybe(v)
        } else {
            This(v)
        });
    }
    None
}

fn atom(s: &str) -> Means {
    use Means::*;
    match s {
        "nil" => return This(Value::Nil),
        "true" => return This(Value::Boolean(true)),
        "false" => return This(Value::Boolean(false)),
        _ => {}
    }
    if let Some(n) = number(s) {
        return n;
    }
    let (kw, body) = match s.strip_prefix(':') {
        Some(b) => (true, b),
        None => (false, s),
    };
    let digit = body.as_bytes().first().map_or(false, |b| b.is_ascii_digit());
    let dots = !kw && (body == "..." || body == ".");
    let r = match body.find('/') {
        _ if dots || name(body) => Some(if kw { Value::from_keyword(None, body) } else { Value::from_symbol(None, body) }),
        Some(i) if namespace(&body[..i]) && (name(&body[i + 1..]) || !kw && (&body[i + 1..] == "..." || &body[i + 1..] == ".")) => {
            Some(if kw { Value::from_keyword(&body[..i], &body[i + 1..]) } else { Value::from_symbol(&body[..i], &body[i + 1..]) })
        }
        _ => None,
    };
    match r {
        Some(v) if digit && !kw => Maybe(v),
        Some(v) => This(v),
        None if body.contains('.') => Anything,
        None => Nothing,
    }
}

struct Reader<'a> {
    s: &'a str,
    i: usize,
    maybe: bool,
    any: bool,
}

impl<'a> Reader<'a> {
    fn rest(&self) -> &'a str {
        &self.s[self.i..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn skip(&mut self) {
        loop {
            match self.peek() {
                Some(c) if is_ws(c) => self.i += 1,
                Some(';') => {
                    while let Some(c) = self.peek() {
                        if c == '\r' || c == '\n' {
                            break;
                        }
                        self.i += c.len_utf8();
                    }
                }
                _ => return,
            }
        }
    }
    fn run(&mut self) -> &'a str {
        let r = self.rest();
        let n = r.find(ends).unwrap_or(r.len());
        self.i += n;
        &r[..n]
    }
    fn string(&mut self) -> Option<String> {
        if self.peek() != Some('"') {
            return None;
        }
        self.i += 1;
        let mut out = String::new();
        loop {
            let c = self.peek()?;
            self.i += c.len_utf8();
            match c {
                '"' => return Some(out),
                '\\' => {
                    let d = self.peek()?;
                    self.i += d.len_utf8();
                    out.push(match d {
                        '\\' => '\\',
                        '"' => '"',
                        'n' => '\n',
                        't' => '\t',
                        'r' => '\r',
                        _ => return None,
                    });
                }
                c => out.push(c),
            }
        }
    }
    fn spaces(&mut self) -> bool {
        let i = self.i;
        while self.peek().map_or(false, is_ws) {
            self.i += 1;
        }
        self.i > i
    }
    fn tagged(&mut self) -> Option<Value> {
        if self.rest().starts_with("#{") {
            self.i += 2;
            let vs = self.many('}')?;
            let set: BTreeSet<Value> = vs.iter().cloned().collect();
            if set.len() != vs.len() {
                self.maybe = true;
            }
            return Some(Value::Set(set));
        }
        let tag = self.run();
        if !self.spaces() {
            return None;
        }
        if tag != "#inst" && tag != "#uuid" {
            let i = self.i;
            self.any |= self.run().contains('.');
            self.i = i;
        }
        match tag {
            "#f" => match self.run() {
                "NaN" => Some(Value::Float(OrderedFloat(f64::NAN))),
                "+Infinity" => Some(Value::Float(OrderedFloat(f64::INFINITY))),
                "-Infinity" => Some(Value::Float(OrderedFloat(f64::NEG_INFINITY))),
                _ => None,
            },
            "#inst" => {
                let s = self.string()?;
                if s.len() < 20 || s.bytes().any(|b| b.is_ascii_lowercase() || b == b' ') {
                    return None;
                }
                DateTime::parse_from_rfc3339(&s).ok().map(|d| Value::Instant(d.with_timezone(&Utc)))
            }
            "#instmicros" | "#instmillis" => {
                let d = self.run();
                if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) {
                    return None;
                }
                let n: i64 = d.parse().ok()?;
                let per = if tag == "#instmicros" { 1_000_000 } else { 1_000 };
                Utc.timestamp_opt(n / per, (n % per) as u32 * (1_000_000_000 / per) as u32).single().map(Value::Instant)
            }
            "#uuid" => {
                let s = self.string()?;
                let ok = s.len() == 36 && s.bytes().enumerate().all(|(i, b)| if [8, 13, 18, 23].contains(&i) { b == b'-' } else { b.is_ascii_digit() || (b'a'..=b'f').contains(&b) });
                if !ok {
                    return None;
                }
                uuid::Uuid::parse_str(&s).ok().map(Value::Uuid)
            }
            _ => None,
        }
    }
    fn many(&mut self, close: char) -> Option<Vec<Value>> {
        let mut out = vec![];
        loop {
            self.skip();
            match self.peek()? {
                c if c == close => {
                    self.i += 1;
                    return Some(out);
                }
                _ => out.push(self.value()?),
            }
        }
    }
    fn value(&mut self) -> Option<Value> {
        self.skip();
        match self.peek()? {
            '[' => {
                self.i += 1;
                self.many(']').map(Value::Vector)
            }
            '(' => {
                self.i += 1;
                self.many(')').map(|v| Value::List(v.into_iter().collect::<LinkedList<_>>()))
            }
            '{' => {
                self.i += 1;
                let vs = self.many('}')?;
                if vs.len() % 2 == 1 {
                    return None;
                }
                let m: BTreeMap<Value, Value> = vs.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect();
                if m.len() * 2 != vs.len() {
                    self.any = true;
                }
                Some(Value::Map(m))
            }
            '"' => self.string().map(Value::Text),
            '#' => self.tagged(),
            ')' | ']' | '}' => None,
            _ => match atom(self.run()) {
                Means::This(v) => Some(v),
                Means::Maybe(v) => {
                    self.maybe = true;
                    Some(v)
                }
                Means::Anything => {
                    self.any = true;
                    Some(Value::Nil)
                }
                Means::Nothing => None,
            },
        }
    }
}

fn read(s: &str) -> Means {
    let mut r = Reader { s, i: 0, maybe: false, any: false };
    let v = match r.value() {
        Some(v) => v,
        None if r.any => return Means::Anything,
        None => return Means::Nothing,
    };
    r.skip();
    if r.any {
        Means::Anything
    } else if r.i != s.len() {
        Means::Nothing
    } else if r.maybe {
        Means::Maybe(v)
    } else {
        Means::This(v)
    }
}

fn parse(s: &str) -> Result<Option<Value>, String> {
    guard(|| edn::parse::value(s).ok().map(|v| v.without_spans()))
}

fn judge(s: &str) -> Result<Option<Value>, String> {
    let got = parse(s).map_err(|e| format!("parsing {:?}: {}", s, e))?;
    match (read(s), &got) {
        (Means::Anything, _) => {}
        (Means::This(ref v), Some(w)) | (Means::Maybe(ref v), Some(w)) if v == w && kind(v) == kind(w) => {}
        (Means::Maybe(_), None) | (Means::Nothing, None) => {}
        (m, g) => return Err(format!("{:?} parses as {:?}, but means {:?}", s, g, m)),
    }
    Ok(got)
}

fn kind(v: &Value) -> std::mem::Discriminant<Value> {
    std::mem::discriminant(v)
}

fn atoms() -> Vec<Value> {
    let inst = |s: &str| Value::Instant(DateTime::parse_from_rfc3339(s).unwrap().with_timezone(&Utc));
    let mut v = vec![Value::Nil, Value::Boolean(true), Value::Boolean(false)];
    v.extend([0, 1, -1, 7, 42, i64::MAX, i64::MIN].iter().map(|i| Value::Integer(*i)));
    v.extend(["0", "-1", "42", "9223372036854775808", "-123456789012345678901234567890"].iter().map(|s| Value::from_bigint(s).unwrap()));
    v.extend([0.0, -0.0, 1.0, -1.0, 42.0, 0.1, 1e15, 1e16, 1e21, 1e300, 1e-7, 5e-324, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN].iter().map(|f| Value::Float(OrderedFloat(*f))));
    v.extend(["1970-01-01T00:00:00Z", "2018-01-01T00:00:00.000001Z", "1969-12-31T23:59:59.999999Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59.999999999Z", "2017-05-01T12:00:00.5+02:00"].iter().map(|s| inst(s)));
    v.extend(["", "a", " ", "\"", "\\", "\n", "\t\r", "\\n", "a\\\"b", ";c", "[1", "é☃𝄞", "\u{0}", "\\\\"].iter().map(|s| Value::Text(s.to_string())));
    v.extend(["00000000-0000-0000-0000-000000000000", "4cb3f828-752d-497a-90c9-b1fd516d5644"].iter().map(|s| Value::Uuid(uuid::Uuid::parse_str(s).unwrap())));
    v.extend(["a", "nilly", "truex", "false-", "...", ".", "?x", "$", "e5", "N", "x+"].iter().map(|s| Value::from_symbol(None, s)));
    v.extend([("a", "b"), ("nil", "true"), ("a.b-c.d", "...")].iter().map(|(n, s)| Value::from_symbol(*n, s)));
    v.extend(["a", "1", "nil", "_x"].iter().map(|s| Value::from_keyword(None, s)));
    v.extend([("a", "b"), ("a.b", "_c"), ("1", "2")].iter().map(|(n, s)| Value::from_keyword(*n, s)));
    v
}

fn wrap(vs: &[Value]) -> Vec<Value> {
    let mut out = vec![Value::Vector(vs.to_vec()), Value::List(vs.iter().cloned().collect()), Value::Set(vs.iter().cloned().collect())];
    if vs.len() % 2 == 0 {
        out.push(Value::Map(vs.chunks(2).map(|c| (c[0].clone(), c[1].clone())).collect()));
    }
    out
}

/// The tokens of a value, written independently of the code's printers.
fn tokens(v: &Value, out: &mut Vec<String>) {
    let mut all = |o: &str, vs: Vec<&Value>, c: &str, out: &mut Vec<String>| {
        out.push(o.to_string());
        for v in vs {
            tokens(v, out);
        }
        out.push(c.to_string());
    };
    match v {
        Value::Vector(vs) => all("[", vs.iter().collect(), "]", out),
        Value::List(vs) => all("(", vs.iter().collect(), ")", out),
        Value::Set(vs) => all("#{", vs.iter().collect(), "}", out),
        Value::Map(m) => all("{", m.iter().flat_map(|(k, v)| vec![k, v]).collect(), "}", out),
        Value::Text(s) => out.push(format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\r', "\\r"))),
        Value::Float(f) if f.is_infinite() => out.push(format!("#f {}Infinity", if f.0 > 0.0 { "+" } else { "-" })),
        Value::Float(f) if f.is_nan() => out.push("#f NaN".to_string()),
        Value::Float(f) => out.push(format!("{:e}", f.0)),
        v => out.push(v.to_string()),
    }
}

/// `-0.0` equals `0.0`, which is how it's compared; besides that, nothing may change.
fn same(v: &Value, w: &Value) -> bool {
    v == w && format!("{:?}", v).replace("-0.0", "0.0") == format!("{:?}", w).replace("-0.0", "0.0")
}

/// What the accessors say about a value: those of its kind give it, the others nothing.
fn accessors(v: &Value) -> Result<(), String> {
    let kind = match v {
        Value::Nil => "nil",
        Value::Boolean(_) => "boolean",
        Value::Integer(_) => "integer",
        Value::Instant(_) => "instant",
        Value::BigInteger(_) => "big integer",
        Value::Float(_) => "float",
        Value::Text(_) => "text",
        Value::Uuid(_) => "uuid",
        Value::PlainSymbol(_) => "symbol",
        Value::NamespacedSymbol(_) => "namespaced symbol",
        Value::Keyword(k) if k.namespace().is_some() => "namespaced keyword",
        Value::Keyword(_) => "keyword",
        Value::Vector(_) => "vector",
        Value::List(_) => "list",
        Value::Set(_) => "set",
        Value::Map(_) => "map",
    };
    let own = || v.clone();
    let told: Vec<(&str, bool, Option<Value>, Option<Value>)> = vec![
        ("nil", v.is_nil(), v.as_nil().map(|_| Value::Nil), v.as_nil().map(|_| Value::Nil)),
        ("boolean", v.is_boolean(), v.as_boolean().map(Value::Boolean), own().into_boolean().map(Value::Boolean)),
        ("integer", v.is_integer(), v.as_integer().map(Value::Integer), own().into_integer().map(Value::Integer)),
        ("instant", v.is_instant(), v.as_instant().map(Value::Instant), own().into_instant().map(Value::Instant)),
        ("big integer", v.is_big_integer(), v.as_big_integer().cloned().map(Value::BigInteger), own().into_big_integer().map(Value::BigInteger)),
        ("float", v.is_float(), v.as_float().map(Value::from_float), own().into_float().map(Value::from_float)),
        ("float", v.is_float(), v.as_ordered_float().cloned().map(Value::Float), own().into_ordered_float().map(Value::Float)),
        ("text", v.is_text(), v.as_text().cloned().map(Value::Text), own().into_text().map(Value::Text)),
        ("text", v.is_text(), own().with_spans().as_text().cloned().map(Value::Text), own().with_spans().into_text().map(Value::Text)),
        ("uuid", v.is_uuid(), v.as_uuid().cloned().map(Value::Uuid), own().into_uuid().map(Value::Uuid)),
        ("symbol", v.is_symbol(), v.as_symbol().cloned().map(Value::PlainSymbol), own().into_symbol().map(Value::PlainSymbol)),
        ("namespaced symbol", v.is_namespaced_symbol(), v.as_namespaced_symbol().cloned().map(Value::NamespacedSymbol), own().into_namespaced_symbol().map(Value::NamespacedSymbol)),
        ("keyword", v.is_keyword(), v.as_plain_keyword().cloned().map(Value::Keyword), own().into_plain_keyword().map(Value::Keyword)),
        ("namespaced keyword", v.is_namespaced_keyword(), v.as_namespaced_keyword().cloned().map(Value::Keyword), own().into_namespaced_keyword().map(Value::Keyword)),
        ("vector", v.is_vector(), v.as_vector().cloned().map(Value::Vector), own().into_vector().map(Value::Vector)),
        ("list", v.is_list(), v.as_list().cloned().map(Value::List), own().into_list().map(Value::List)),
        ("set", v.is_set(), v.as_set().cloned().map(Value::Set), own().into_set().map(Value::Set)),
        ("map", v.is_map(), v.as_map().cloned().map(Value::Map), own().into_map().map(Value::Map)),
    ];
    for (k, is, r, i) in told {
        let want = if k == kind { Some(v.clone()) } else { None };
        let ok = |x: &Option<Value>| match (x, &want) {
            (Some(x), Some(w)) => same(x, w),
            (None, None) => true,
            _ => false,
        };
        if is != want.is_some() || !ok(&r) || !ok(&i) {
            return Err(format!("asked for a {}, {:?} gives {}, {:?} and {:?}", k, v, is, r, i));
        }
    }
    let atom = !["vector", "list", "set", "map"].contains(&kind);
    let k = if kind.ends_with("keyword") { Some(v.clone()) } else { None };
    if v.is_atom() != atom || v.is_collection() == atom || own().into_atom().is_some() != atom || v.as_keyword().cloned().map(Value::Keyword) != k || own().into_keyword().map(Value::Keyword) != k {
        return Err(format!("is {:?} an atom, a collection, a keyword?", v));
    }
    let s = own().with_spans();
    if s.is_atom() != atom || s.as_atom().is_some() != atom || s.clone().into_atom().map_or(false, |a| !same(&a.without_spans(), v)) || s.into_atom().is_some() != atom {
        return Err(format!("is {:?} with spans an atom?", v));
    }
    Ok(())
}

fn round(ctx: &Ctx, v: &Value) -> Result<(), String> {
    ctx.state(1);
    let mut texts = vec![("printed", guard(|| v.to_string())?)];
    for w in [1, 20, 120].iter() {
        texts.push(("pretty-printed", guard(|| v.to_pretty(*w).map_err(|e| e.to_string()))??));
    }
    let mut ts = vec![];
    tokens(v, &mut ts);
    for sep in [" ", ",", ";c\n", "\t ; [ \" \r\n,"].iter() {
        texts.push(("written", format!("{}{}{}", sep, ts.join(sep), sep)));
    }
    texts.dedup();
    for (how, t) in texts {
        ctx.transition(1);
        let got = parse(&t).map_err(|e| format!("{:?} {} as {:?}: {}", v, how, t, e))?;
        match got {
            Some(ref w) if same(v, w) => {}
            got => return Err(format!("{:?} is {} as {:?}, which parses as {:?}", v, how, t, got)),
        }
    }
    guard(|| accessors(v))??;
    guard(|| v.clone().with_spans().without_spans()).and_then(|w| if same(v, &w) { Ok(()) } else { Err(format!("{:?} with and without spans is {:?}", v, w)) })
}

const CHARS: &[char] = &['0', '1', '9', '-', '+', '.', 'e', 'N', 'r', 'x', ':', '/', '#', '"', '\\', 'n', 'a', '[', ']', '{', '}', '(', ')', ';', ' ', '\n', 'é', '_'];

const TOKENS: &[&str] = &[
    "nil", "true", "false", "nilx", "true1", "0", "-0", "017", "018", "0x1F", "0xg", "2r101", "2r2", "36rZz", "37r1", "1r0", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
    "0x8000000000000000", "01000000000000000000000", "777777777777777777777777", "36rzzzzzzzzzzzzzzz", "1.5", "1.", ".5", "1e5", "1e", "1e400", "1E-5", "+1.0e+1", "1N", "-1N", "1NN", "#f", "#f NaN", "#f +Infinity", "#f Infinity", "#f\tNaNa",
    "#inst \"2017-01-01T00:00:00Z\"", "#inst \"2017-13-01T00:00:00Z\"", "#inst \"2017-01-01T25:00:00Z\"", "#inst \"2016-12-31T23:59:60Z\"", "#inst \"2017-01-01T00:00:00\"", "#instmicros 1", "#instmicros 9223372036854775807", "#instmillis 9223372036854775807", "#instmillis 99999999999999999999", "#instmicros -1", "#instmillis 1x",
    "#uuid \"4cb3f828-752d-497a-90c9-b1fd516d5644\"", "#uuid \"4cb3f828\"", "#uuid \"4CB3F828-752d-497a-90c9-b1fd516d5644\"", "\"\\n\\t\\r\\\\\\\"\"", "\"\\x\"", "\"", "a", "a/b", "a/b/c", "/", ":", ":a", "::a", ":a/b", ":a/", "[", "]", "(", ")", "{", "}", "#{", ";", "-", "_", "...",
];

/// Everything but the positions.
fn unspanned(s: String) -> String {
    let mut out = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find("Span(") {
        out.push_str(&rest[..i]);
        let j = rest[i..].find(')').map(|j| i + j + 1).unwrap_or(rest.len());
        rest = &rest[j..];
    }
    out.push_str(rest);
    out
}

const ENTITY: &[&str] = &[
    "[", "]", "{", "}", "(", ")", ":db/add", ":db/retract", "\"t\"", ":a/b", ":a/_b", ":a/_", ":a", "1", "-1", "0x10000000000000000", "99999999999999999999", "lookup-ref", "transaction-tx", "1.5", "nil", "#uuid \"\"", "#instmicros 99999999999999999999", ":db/id",
];

const QUERY: &[&str] = &[
    "[", "]", "(", ")", ":find", ":where", ":in", ":with", ":limit", ":order", "?x", "?y", "_", ".", "...", ":a/b", ":a/_b", ":a/_", "*", "pull", "the", "count", "or", "or-join", "and", "not", "not-join", "type", "ground", ">", "1", "0", "-1", "99999999999999999999", "\"s\"", "nil", "$", "asc", ":as", "1.5", "2N", "%r",
];

fn grammar(ctx: &Ctx, name: &str, words: &[&str], open: &[&str], close: &[&str], n: usize, f: &(dyn Fn(&str) -> String + Sync)) {
    for k in 0..=n {
        let w = words.len();
        ctx.par(if k == 0 { 1 } else { w }, |first| {
            for rest in sequences(w, k.max(1) - 1) {
                let mut ts: Vec<&str> = vec![];
                if k > 0 {
                    ts.push(words[first]);
                    ts.extend(rest.iter().map(|i| words[*i]));
                }
                for (o, c) in open.iter().zip(close) {
                    let at = |sep: &str| {
                        let mut t = vec![];
                        t.extend(o.split(' ').filter(|s| !s.is_empty()));
                        t.extend(ts.iter());
                        t.extend(c.split(' ').filter(|s| !s.is_empty()));
                        t.join(sep)
                    };
                    let a = at(" ");
                    if !ctx.want(&a) || ctx.too_many() {
                        continue;
                    }
                    ctx.transition(2);
                    let b = at(" ,;c\n");
                    let (x, y) = (guard(|| f(&a)), guard(|| f(&b)));
                    match (x, y) {
                        (Ok(ref x), Ok(ref y)) if unspanned(x.clone()) == unspanned(y.clone()) => {
                            ctx.outcome(&hash(&(x.is_empty(), name)));
                        }
                        (x, y) => ctx.violation(format!("C21/{}/{}", name, a), a.clone(), format!("the {} parser: {} gives {:?}, {} gives {:?}", name, a, x, b, y)),
                    }
                }
            }
        });
    }
}

pub fn run(ctx: &Ctx) {
    let atoms = atoms();
    ctx.note("atoms", atoms.len().to_string());
    let report = |case: String, r: Result<(), String>| {
        if let Err(e) = r {
            ctx.violation(format!("C21/{}", case), case, e);
        }
    };
    // Values.
    for (i, a) in atoms.iter().enumerate() {
        let case = format!("atom:{}", i);
        if ctx.want(&case) {
            report(case, round(ctx, a));
        }
    }
    let n = atoms.len();
    let size = if ctx.thorough { 3 } else { 2 };
    for k in 0..=size {
        ctx.par(if k == 0 { 1 } else { n }, |first| {
            for rest in sequences(n, k.max(1) - 1) {
                let mut ix = vec![];
                if k > 0 {
                    ix.push(first);
                    ix.extend(rest);
                }
                let vs: Vec<Value> = ix.iter().map(|i| atoms[*i].clone()).collect();
                for (j, v) in wrap(&vs).iter().enumerate() {
                    let case = format!("value:{:?}:{}", ix, j);
                    if ctx.want(&case) && !ctx.too_many() {
                        report(case, round(ctx, v));
                    }
                }
            }
        });
    }
    // Nested: every shape within every shape, next to and around a few atoms.
    let few: Vec<Value> = [0usize, 4, 17, 35, 42, 50, 60, 66].iter().filter_map(|i| atoms.get(*i).cloned()).collect();
    let inner: Vec<Value> = sequences(few.len(), 2).flat_map(|s| wrap(&s.iter().map(|i| few[*i].clone()).collect::<Vec<_>>())).chain(wrap(&[])).chain(few.iter().flat_map(|a| wrap(&[a.clone()]))).collect();
    ctx.par(inner.len(), |i| {
        for (j, b) in inner.iter().enumerate().filter(|_| true) {
            for (k, v) in wrap(&[inner[i].clone(), b.clone()]).iter().enumerate() {
                let case = format!("nested:{}:{}:{}", i, j, k);
                if ctx.want(&case) && !ctx.too_many() {
                    report(case, round(ctx, v));
                }
            }
        }
    });
    // Texts.
    let c = CHARS.len();
    for k in 0..=if ctx.thorough { 5 } else { 4 } {
        ctx.par(if k == 0 { 1 } else { c }, |first| {
            for rest in sequences(c, k.max(1) - 1) {
                let mut s = String::new();
                if k > 0 {
                    s.push(CHARS[first]);
                    s.extend(rest.iter().map(|i| CHARS[*i]));
                }
                let case = format!("text:{}", s);
                if !ctx.want(&case) || ctx.too_many() {
                    continue;
                }
                ctx.transition(1);
                match judge(&s) {
                    Ok(g) => {
                        ctx.outcome(&g);
                    }
                    Err(e) => report(case, Err(e)),
                }
            }
        });
    }
    // Tokens.
    let t = TOKENS.len();
    for k in 1..=if ctx.thorough { 3 } else { 2 } {
        ctx.par(t, |first| {
            for rest in sequences(t, k - 1) {
                let mut ts = vec![TOKENS[first]];
                ts.extend(rest.iter().map(|i| TOKENS[*i]));
                for sep in ["", " ", ",", ";c\n"].iter() {
                    for (o, c) in [("", ""), ("[", "]"), ("{", "}"), ("#{", "}"), ("(", ")")].iter() {
                        let s = format!("{}{}{}", o, ts.join(sep), c);
                        let case = format!("text:{}", s);
                        if !ctx.want(&case) || ctx.too_many() {
                            continue;
                        }
                        ctx.transition(1);
                        match judge(&s) {
                            Ok(g) => {
                                ctx.outcome(&g);
                            }
                            Err(e) => report(case, Err(e)),
                        }
                    }
                }
            }
        });
    }
    // Order.
    let mut vs = atoms.clone();
    vs.extend(inner.iter().step_by(5).cloned());
    ctx.par(vs.len(), |i| {
        let a = &vs[i];
        for (j, b) in vs.iter().enumerate() {
            let case = format!("order:{}:{}", i, j);
            if !ctx.want(&case) {
                continue;
            }
            let ab = a.cmp(b);
            if ab != b.cmp(a).reverse() || (ab == Ordering::Equal) != (a == b) || a.partial_cmp(b) != Some(ab) || (a == b && hash(a) != hash(b)) || (i == j && ab != Ordering::Equal) {
                report(case.clone(), Err(format!("{:?} and {:?}: cmp {:?} and {:?}, partial_cmp {:?}, == {}", a, b, ab, b.cmp(a), a.partial_cmp(b), a == b)));
            }
            for c in &vs {
                ctx.eval(1);
                if ab != Ordering::Greater && b.cmp(c) != Ordering::Greater && (a.cmp(c) == Ordering::Greater || a.cmp(c) == Ordering::Equal && (ab != Ordering::Equal || b.cmp(c) != Ordering::Equal)) {
                    report(case.clone(), Err(format!("{:?}, {:?}, {:?} are not in order", a, b, c)));
                }
            }
        }
    });
    // Names: reversing is its own inverse and changes the direction only.
    let parts = ["a", "_", "_a", "__", "a_", "é", "a.b", "1"];
    for ns in parts.iter().map(|p| Some(*p)).chain(Some(None)) {
        for name in parts.iter() {
            let case = format!("name:{:?}:{}", ns, name);
            if !ctx.want(&case) {
                continue;
            }
            ctx.transition(1);
            let r = guard(|| {
                let k = match ns {
                    Some(ns) => edn::Keyword::namespaced(ns, name),
                    None => edn::Keyword::plain(*name),
                };
                let mut bad = vec![];
                let mut is = |ok: bool, what: &str| {
                    if !ok {
                        bad.push(what.to_string());
                    }
                };
                is(k.namespace() == ns && k.name() == *name && k.is_namespaced() == ns.is_some(), "parts");
                is(k.to_string() == ns.map_or(format!(":{}", name), |ns| format!(":{}/{}", ns, name)), "text");
                is((*name == "_" || k.is_backward() == name.starts_with('_')) && k.is_forward() != k.is_backward(), "direction");
                {
                    let r = k.to_reversed();
                    is(r.namespace() == ns && r.to_reversed() == k && r.is_backward() != k.is_backward(), "reversal");
                    is(k.unreversed() == if k.is_backward() { Some(r) } else { None }, "unreversed");
                }
                bad
            });
            match r {
                Ok(ref bad) if bad.is_empty() => {}
                r => report(case, Err(format!("keyword {:?} {}: {:?}", ns, name, r))),
            }
        }
    }
    // The other grammars.
    let n = if ctx.thorough { 4 } else { 3 };
    let show = |r: Result<String, ()>| r.unwrap_or_default();
    grammar(ctx, "entities", ENTITY, &["", "[", "[ [ :db/add", "[ {", "[ [ :db/add \"t\" :a/b"], &["", "]", "] ]", "} ]", "] ]"], 4, &|s| show(edn::parse::entities(s).map(|e| format!("{:?}", e)).map_err(|_| ())));
    grammar(ctx, "query", QUERY, &["", "[ :find ?x :where", "[ :find ?x :where [", "[ :find", "[ :find ?x :where [ ?x :a/b ?y ]"], &["", "]", "] ]", ":where [ ?x :a/b ?y ] ]", "]"], n, &|s| show(edn::parse::parse_query(s).map(|e| format!("{:?}", e)).map_err(|_| ())));
}
