//! C27: syncing over HTTP is syncing, and requests that fail are not taken for done.
use crate::c::c17::{apart, failing, name, sequences_of, start, text, turns, Apart, Kept, Server, Step, World, ALL, T};
use crate::db::*;
use crate::h::*;
use mentat::Syncable;
use mentat_tolstoy::{GlobalTransactionLog, SyncReport, TxPart};
use serde_json::{json, Value as Json};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use uuid::Uuid;

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "The real client, runtime and TCP stack talk over the loopback to a server that keeps what it is given (C17's) and refuses whatever isn't a request of the protocol, answering in all the ways HTTP has of saying the same thing. (1) Histories: every sequence of transactions and syncs of two stores, judged as C17 judges them over its stand-in. (2) Failing: in the last sync of every history, every request meets every failure (connection closed before or after the request takes effect, an answer cut off, error and redirect statuses with empty, plain and plausible bodies, answers that aren't UTF-8, JSON or what was asked for); the sync must fail without panicking, leave the store as it was and the server with what the requests before did, and when it is repeated everything must be as it should have been.",
        bounds: "quick: 14 kinds of transactions and syncs, to depth 1 taking turns and apart, 3 kinds to depth 2, with 3 styles of answers in turn, and a value of 360 kB; every request of the last sync of 5 histories x 15 failures. thorough: 14 kinds to depth 2, 3 kinds to depth 3; 8 histories.",
        assumptions: vec!["plain HTTP: TLS is not set up", "a server that never answers is not tried: the client has no timeout", "what repeating gives after the answer to the last request is lost is C17's"],
    }
}

// ---------------------------------------------------------------- the server

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    Closed,
    Lost,
    Cut,
    Status(u16, bool),
    Body(usize),
}

/// Bodies that aren't answers.
const BODIES: &[&[u8]] = &[b"", b"not json", b"\"\xff\xfe\"", b"[]", b"{}", b"{\"head\": 5, \"transactions\": 5, \"chunks\": 5, \"parent\": 5, \"id\": 5, \"seq\": 0, \"limit\": 0, \"from\": 0, \"e\": \"5\"}", b"{\"head\": \"nothing\", \"transactions\": [\"nothing\"], \"from\": \"nothing\", \"limit\": 1, \"chunks\": [\"nothing\"]}"];

fn faults() -> Vec<Fault> {
    let mut v = vec![Fault::Closed, Fault::Lost, Fault::Cut];
    for s in &[301u16, 404, 409, 500] {
        v.push(Fault::Status(*s, false));
    }
    v.push(Fault::Status(500, true));
    v.extend((0..BODIES.len()).map(Fault::Body));
    v
}

#[derive(Default)]
struct State {
    server: Server,
    /// How answers are given.
    style: usize,
    /// Requests so far, and the one that fails.
    count: u64,
    plan: Option<(u64, Fault)>,
    hit: bool,
    /// Whether a request that was to fail took effect.
    effect: bool,
    /// Requests that aren't of the protocol.
    bad: Vec<String>,
    log: Vec<String>,
}

pub struct Net {
    state: Arc<Mutex<State>>,
    port: u16,
    stop: Arc<AtomicBool>,
    user: Uuid,
}

struct Request {
    method: String,
    target: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
}

fn read(s: &mut TcpStream) -> Option<Request> {
    let mut buf = vec![];
    let mut chunk = [0u8; 65536];
    let head = loop {
        if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break i;
        }
        match s.read(&mut chunk) {
            Ok(0) | Err(_) => return None,
            Ok(n) => buf.extend_from_slice(&chunk[..n]),
        }
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut lines = text.split("\r\n");
    let mut first = lines.next()?.split(' ');
    let (method, target) = (first.next()?.to_string(), first.next()?.to_string());
    let headers: Vec<(String, String)> = lines.filter_map(|l| l.find(':').map(|i| (l[..i].to_lowercase(), l[i + 1..].trim().to_string()))).collect();
    let len: usize = headers.iter().find(|h| h.0 == "content-length").and_then(|h| h.1.parse().ok()).unwrap_or(0);
    let mut body = buf[head + 4..].to_vec();
    while body.len() < len {
        match s.read(&mut chunk) {
            Ok(0) | Err(_) => return None,
            Ok(n) => body.extend_from_slice(&chunk[..n]),
        }
    }
    Some(Request { method, target, headers, body })
}

/// Does what the request asks for: the status and the body.
fn perform(st: &mut State, user: &Uuid, r: &Request) -> Result<(u16, Option<Json>), String> {
    let path = r.target.strip_prefix(&format!("/api/0.1/{}/", user)).ok_or("not in the user's space")?;
    let id = |s: &str| -> Result<Uuid, String> { Uuid::parse_str(s).map_err(|_| format!("not a UUID: {}", s)) };
    let of = |j: &Json, k: &str| -> Result<Uuid, String> { id(j[k].as_str().ok_or_else(|| format!("no {}", k))?) };
    if r.method == "GET" && !r.body.is_empty() {
        return Err("GET with a body".into());
    }
    let sent = || -> Result<Json, String> {
        if !r.headers.iter().any(|h| h.0 == "content-type" && h.1 == "application/json") {
            return Err("not sent as JSON".into());
        }
        serde_json::from_slice(&r.body).map_err(|e| e.to_string())
    };
    let parts: Vec<&str> = path.split('/').collect();
    let s = &mut st.server;
    let fine = |r: Result<(), mentat::MentatError>| r.map_err(|e| e.to_string());
    Ok(match (r.method.as_str(), parts.as_slice()) {
        ("GET", ["head"]) => (200, Some(json!({ "head": s.head.to_string() }))),
        ("PUT", ["head"]) => {
            let h = of(&sent()?, "head")?;
            fine(s.set_head(&h))?;
            (204, None)
        }
        ("GET", [t]) if t.starts_with("transactions?from=") => {
            let from = id(&t["transactions?from=".len()..])?;
            let chain = s.chain();
            let i = if from == Uuid::nil() { 0 } else { chain.iter().position(|t| *t == from).ok_or("from an unknown transaction")? + 1 };
            let ts: Vec<String> = chain[i..].iter().map(|t| t.to_string()).collect();
            (200, Some(json!({"limit": 1000, "from": from.to_string(), "transactions": ts})))
        }
        ("GET", ["transactions", t]) => {
            let t = id(t)?;
            let seq = s.chain().iter().position(|x| *x == t).ok_or("an unknown transaction")?;
            let (parent, chunks) = s.txs[&t].clone();
            let cs: Vec<String> = chunks.iter().map(|c| c.to_string()).collect();
            (200, Some(json!({"parent": parent.to_string(), "chunks": cs, "id": t.to_string(), "seq": seq})))
        }
        ("PUT", ["transactions", t]) => {
            let (t, b) = (id(t)?, sent()?);
            let mut cs = vec![];
            for c in b["chunks"].as_array().ok_or("no chunks")? {
                cs.push(id(c.as_str().ok_or("chunks not text")?)?);
            }
            fine(s.put_transaction(&t, &of(&b, "parent")?, &cs))?;
            (201, None)
        }
        ("GET", ["chunks", c]) => (200, Some(serde_json::from_str(s.chunks.get(&id(c)?).ok_or("an unknown chunk")?).map_err(|e| e.to_string())?)),
        ("PUT", ["chunks", c]) => {
            let c = id(c)?;
            if s.chunks.contains_key(&c) {
                return Err("a chunk is put twice".into());
            }
            let b = sent()?;
            let _: TxPart = serde_json::from_value(b).map_err(|e| e.to_string())?;
            s.chunks.insert(c, String::from_utf8(r.body.clone()).map_err(|e| e.to_string())?);
            (201, None)
        }
        _ => return Err("not a request of the protocol".into()),
    })
}

/// The same answer, in different ways.
fn answer(s: &mut TcpStream, style: usize, status: u16, body: &[u8], cut: bool) -> std::io::Result<()> {
    let mut out = format!("HTTP/1.1 {} Whatever\r\nServer: mc\r\n", status).into_bytes();
    if status == 301 {
        out.extend(b"Location: /elsewhere\r\n");
    }
    match style % 3 {
        _ if status == 204 => out.extend(b"Connection: close\r\n\r\n"),
        0 => {
            out.extend(format!("Content-Type: application/json\r\nContent-Length: {}\r\nConnection: close\r\n\r\n", body.len() + if cut { 7 } else { 0 }).bytes());
            out.extend(body);
        }
        1 => {
            out.extend(b"Transfer-Encoding: chunked\r\ncontent-type: application/json; charset=utf-8\r\n\r\n");
            for c in body.chunks(std::cmp::max(1, body.len() / 3)) {
                out.extend(format!("{:x}\r\n", c.len()).bytes());
                out.extend(c);
                out.extend(b"\r\n");
            }
            if !cut {
                out.extend(b"0\r\n\r\n");
            }
        }
        _ => {
            if cut {
                out.extend(format!("Content-Length: {}\r\n", body.len() + 1).bytes());
            }
            out.extend(b"Connection: close\r\n\r\n");
            out.extend(body);
        }
    }
    // In two pieces.
    let n = out.len() / 2;
    s.write_all(&out[..n])?;
    s.flush()?;
    s.write_all(&out[n..])
}

/// The same JSON, with the texts escaped.
fn escaped(s: &str) -> String {
    let (mut out, mut inside, mut skip) = (String::new(), false, 0);
    for c in s.chars() {
        if skip > 0 {
            skip -= 1;
        } else if c == '"' {
            inside = !inside;
        } else if inside && c == '\\' {
            skip = 1;
        } else if inside {
            for u in c.encode_utf16(&mut [0; 2]) {
                out.push_str(&format!("\\u{:04x}", u));
            }
            continue;
        }
        out.push(c);
    }
    out
}

fn serve(mut s: TcpStream, state: &Mutex<State>, user: &Uuid) {
    let _ = s.set_nodelay(true);
    let r = match read(&mut s) {
        Some(r) => r,
        None => return,
    };
    let mut st = state.lock().unwrap();
    st.count += 1;
    st.log.push(format!("{} {}", r.method, r.target));
    let fault = match st.plan {
        Some((n, f)) if n == st.count => {
            st.hit = true;
            Some(f)
        }
        _ => None,
    };
    let style = st.style;
    match fault {
        Some(Fault::Closed) => return,
        Some(Fault::Status(c, plausible)) => {
            let body: Vec<u8> = if plausible { format!("{{\"head\": \"{}\", \"limit\": 0, \"from\": \"{}\", \"transactions\": []}}", Uuid::nil(), Uuid::nil()).into_bytes() } else { vec![] };
            drop(st);
            let _ = answer(&mut s, style, c, &body, false);
            return;
        }
        Some(Fault::Body(i)) if r.method == "GET" => {
            drop(st);
            let _ = answer(&mut s, style, 200, BODIES[i], false);
            return;
        }
        _ => {}
    }
    let done = guard(|| perform(&mut st, user, &r)).and_then(|r| r);
    let (code, body) = match done {
        Ok((code, j)) => {
            let mut body = j.as_ref().map(|j| j.to_string()).unwrap_or_default();
            if style % 2 == 1 {
                if let Some(j) = &j {
                    body = format!("\n {}\n", serde_json::to_string_pretty(j).expect("json"));
                }
            }
            if style % 3 == 1 {
                body = escaped(&body);
            }
            (code, body)
        }
        Err(e) => {
            st.bad.push(format!("{} {}: {}", r.method, r.target, e));
            (400, String::new())
        }
    };
    if fault.is_some() {
        st.effect = r.method == "PUT";
    }
    match fault {
        Some(Fault::Lost) => {}
        Some(Fault::Cut) if r.method == "GET" => {
            drop(st);
            let _ = answer(&mut s, style, code, body.as_bytes(), true);
        }
        // (The bodies of answers to PUT say nothing: only their heads can be cut.)
        Some(Fault::Cut) => {
            let _ = s.write_all(format!("HTTP/1.1 {} Cr", code).as_bytes());
        }
        _ => {
            drop(st);
            let _ = answer(&mut s, style, code, body.as_bytes(), false);
        }
    }
}

impl Net {
    pub fn new() -> Arc<Net> {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let n = Net { state: Default::default(), port: l.local_addr().expect("port").port(), stop: Default::default(), user: Uuid::new_v4() };
        let (state, stop, user) = (n.state.clone(), n.stop.clone(), n.user);
        std::thread::spawn(move || {
            for s in l.incoming() {
                if stop.load(Ordering::SeqCst) {
                    return;
                }
                if let Ok(s) = s {
                    // One request at a time is all the client makes.
                    serve(s, &state, &user);
                }
            }
        });
        Arc::new(n)
    }
    fn style(&self, s: usize) {
        self.state.lock().unwrap().style = s;
    }
    pub fn sync(&self, db: &mut Db, s: &mut Server) -> Result<SyncReport, String> {
        std::mem::swap(&mut self.state.lock().unwrap().server, s);
        self.state.lock().unwrap().log.clear();
        let uri = format!("http://127.0.0.1:{}/api/0.1", self.port);
        let user = self.user.to_string();
        let (sql, conn) = (&mut db.sql, &mut db.conn);
        let got = guard(|| -> Result<SyncReport, String> {
            let mut ip = conn.begin_transaction(sql).map_err(|e| format!("{}", e))?;
            let r = ip.sync(&uri, &user).map_err(|e| format!("{}", e))?;
            ip.commit().map_err(|e| format!("{}", e))?;
            Ok(r)
        })
        .and_then(|r| r);
        let mut st = self.state.lock().unwrap();
        let net = s.net.take();
        std::mem::swap(&mut st.server, s);
        if s.net.is_none() {
            s.net = net;
        }
        if !st.bad.is_empty() {
            let b = std::mem::take(&mut st.bad);
            return Err(format!("PANIC bad requests: {:?}\n({:?})", b, got));
        }
        got
    }
}

impl Drop for Net {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}

// ---------------------------------------------------------------- failing

/// What the server has: the head and what it stands on.
fn content(s: &Server) -> Result<(Uuid, usize), String> {
    guard(|| {
        for t in s.chain() {
            for c in &s.txs[&t].1 {
                assert!(s.chunks.contains_key(c), "a chunk of {} is missing", t);
            }
        }
        (s.head, s.chain().len())
    })
}

fn fault(ctx: &Ctx, b: &(Db, Db), net: &Arc<Net>, steps: &[Step], at: u64, f: Fault, first: bool) -> Result<Option<()>, String> {
    let mut a = Apart { w: World::new(b, 2), kept: Kept::default(), rewound: false, next: Default::default() };
    if !first {
        a.w.sync(0)?;
        a.w.sync(1)?;
    }
    let mut moved = false;
    for (i, s) in steps.iter().enumerate() {
        ctx.transition(1);
        match s {
            Step::Tx(r, t) => {
                let (label, n) = (format!("s{}x{}", r, i), i as i64 + 2);
                if a.w.stores[*r].tx(&text(*t, &label, n))? {
                    a.kept.add(*t, &label, n);
                }
            }
            Step::Sync(r) if i + 1 == steps.len() => {
                let (before, had) = (a.w.stores[*r].db.dump(), content(&a.w.server)?);
                a.w.server.net = Some(net.clone());
                {
                    let mut st = net.state.lock().unwrap();
                    st.count = 0;
                    st.plan = Some((at, f));
                    st.hit = false;
                    st.effect = false;
                }
                let got = a.w.stores[*r].sync(&mut a.w.server);
                a.w.server.net = None;
                let (hit, effect, what) = {
                    let mut st = net.state.lock().unwrap();
                    st.plan = None;
                    (st.hit, st.effect, st.log.last().cloned().unwrap_or_default())
                };
                if !hit {
                    return got.map(|_| None);
                }
                let verb = what.split(|c| c == '/' || c == ' ').filter(|p| ["GET", "PUT", "head", "chunks", "transactions"].contains(p) || p.starts_with("transactions?")).map(|p| p.split('?').next().unwrap()).collect::<Vec<_>>().join(" ");
                ctx.outcome(&(verb, format!("{:?}", f)));
                let now = content(&a.w.server)?;
                match got {
                    // What comes with the answer to a PUT says nothing.
                    Ok(_) if what.starts_with("PUT") && matches!(f, Fault::Body(_)) => return Ok(Some(())),
                    Ok(g) => return Err(format!("request {} ({}) fails, the sync does not: {:?}", at, what, g)),
                    Err(e) if e.starts_with("PANIC") => return Err(format!("request {} ({}) fails: {}", at, what, e)),
                    Err(_) if before != a.w.stores[*r].db.dump() => return Err(format!("request {} ({}) fails, and the sync changes the store", at, what)),
                    Err(_) => moved = now != had,
                }
                if moved && !(effect && what.ends_with("/head")) {
                    return Err(format!("request {} ({}) fails, and the server's head moves", at, what));
                }
            }
            Step::Sync(r) => {
                a.sync(*r)?;
            }
        }
    }
    if !moved {
        a.settle()?;
        a.kept.check(&a.w.stores[0])?;
    }
    Ok(Some(()))
}

pub fn run(ctx: &Ctx) {
    // The client sets up TLS for every request; there are no certificates to load.
    std::env::set_var("SSL_CERT_FILE", "/dev/null");
    let err = dup_fd(2);
    redirect(std::os::unix::io::AsRawFd::as_raw_fd(&std::fs::OpenOptions::new().write(true).open("/dev/null").expect("/dev/null")), 2);
    check(ctx);
    redirect(err, 2);
}

fn check(ctx: &Ctx) {
    let base = Mutex::new(start());
    let mk = || {
        let b = base.lock().unwrap();
        ((b.0.fork(), b.1.fork()), Net::new())
    };
    let mut jobs: Vec<(usize, Vec<Step>)> = vec![];
    let mut seqs = sequences_of(2, ALL, if ctx.thorough { 2 } else { 1 });
    seqs.extend(sequences_of(2, &[T::Item, T::Ref, T::Attr], if ctx.thorough { 3 } else { 2 }));
    seqs.push(vec![Step::Tx(0, T::Big), Step::Sync(0), Step::Sync(1), Step::Tx(1, T::Big)]);
    for s in seqs {
        for way in 0..2 {
            jobs.push((way, s.clone()));
        }
    }
    {
        let _quiet = Quiet::new();
        ctx.par_with(jobs.len(), &mk, |(b, net), j| {
            let (way, s) = &jobs[j];
            let case = format!("{}|{}", ["turns", "apart"][*way], name(s));
            if !ctx.want(&case) || ctx.too_many() {
                return;
            }
            ctx.state(1);
            net.style(j / 2);
            let got = match way {
                0 => turns(ctx, b, Some(net.clone()), 2, s),
                _ => apart(ctx, b, Some(net.clone()), 2, s).or_else(|(known, e)| if known { Ok(()) } else { Err(e) }),
            };
            match got {
                Ok(()) => ctx.trace(1),
                Err(e) => ctx.violation(format!("C27/{}", case), case, format!("steps: {:?}\n{}", s, e)),
            }
            ctx.count("requests", std::mem::take(&mut net.state.lock().unwrap().count));
        });
    }
    ctx.note("histories_s", format!("{:.1}", ctx.elapsed()));
    let mut hs: Vec<(bool, Vec<Step>)> = failing().into_iter().flat_map(|h| vec![(false, h.clone()), (true, h)]).collect();
    hs.retain(|(first, h)| !*first || h.len() == 1);
    if !ctx.thorough {
        hs = [0usize, 1, 3, 5, 6].iter().map(|i| hs[*i].clone()).collect();
    }
    let fs = faults();
    let _quiet = Quiet::new();
    ctx.par_with(hs.len() * fs.len(), &mk, |(b, net), j| {
        let ((first, h), f) = (&hs[j / fs.len()], fs[j % fs.len()]);
        net.style(j);
        for at in 1..500 {
            let case = format!("fault|{}|{:?}|{}|{}", if *first { "first" } else { "later" }, f, name(h), at);
            if !ctx.want(&case) {
                continue;
            }
            if ctx.too_many() {
                return;
            }
            ctx.state(1);
            match guard(|| fault(ctx, b, net, h, at, f, *first)).and_then(|r| r) {
                Ok(None) => break,
                Ok(Some(())) => ctx.trace(1),
                Err(e) => ctx.violation(format!("C27/{}", case), case, format!("steps: {:?}, {:?}\n{}", h, f, e)),
            }
        }
    });
}
