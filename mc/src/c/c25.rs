//! C25: the C interface, against the library.
//!
//! Every case is run twice through the `extern "C"` functions of mentat_ffi (in a process of its own kind, because
//! a panic behind them ends the process) and once through the Rust library, on three copies of one store.
use crate::db::*;
use crate::h::*;
use crate::val::kw;
use crate::vfs::{DiskRef, Image};
use crate::workers::{self, Cases};
use mentat::entity_builder::{BuildTerms, EntityBuilder, InProgressBuilder};
use mentat::{Binding, CacheDirection, FindSpec, HasSchema, InProgress, KnownEntid, QueryInputs, QueryResults, Queryable, Store, TxObserver, TxReport, TypedValue, ValueType, Variable};
use mentat_ffi as f;
use mentat_ffi::utils::error::ExternError;
use std::ffi::{CStr, CString};
use std::os::raw::c_char;
use std::sync::{Arc, Condvar, Mutex};

pub fn info() -> Info {
    Info {
        level: "model_checking",
        rule: "every add, retract, bind, execute and extraction function of the C interface with values of every type, every sequence of calls on a store, a transaction and its builders up to a depth, and every sequence of observer registrations and transactions up to a depth, made on the real extern \"C\" functions in child processes; what comes out (values, nulls, error messages, reports, observer calls, the datoms and the log) is compared with the Rust library on a copy of the same store, a process that ends by itself is a violation, and so is memory that is still allocated, run after run, when everything handed out has been destroyed",
        bounds: "builders: 16 functions x 16 attributes x 2-4 values x 5 targets, and all pairs of 20 assertions on both builders and both endings; calls: 17 calls, all valid sequences of length 4 (thorough: 5); queries: 40 queries x 4 ways to execute, 9 bind functions x 2-3 values x 6 queries; 12 attributes x 5 entities looked up, with every attribute cached in every direction; observers: all sequences of 9 operations of length 3 (thorough: 4)",
        assumptions: vec![
            "keywords are well-formed, strings are UTF-8 without NUL, indices given to value_at_index_into_* and conversions fit the value (the interface documents that it ends the process otherwise)",
            "one transaction or builder is alive at a time, and the store isn't used while it is (the library's types forbid it)",
            "observers are called on another thread in the order of the transactions; the last one in every case tells when they are done",
        ],
    }
}

fn cs(s: &str) -> CString {
    CString::new(s).unwrap()
}

/// An error to be filled in, with something in it that isn't an address.
struct Err_(ExternError);
impl Err_ {
    fn new() -> Err_ {
        Err_(ExternError { message: 8 as *mut c_char })
    }
    fn p(&mut self) -> *mut ExternError {
        &mut self.0
    }
    fn take(self) -> Option<String> {
        unsafe { message(self.0.message) }
    }
}
unsafe fn message(m: *mut c_char) -> Option<String> {
    match m as usize {
        0 => None,
        8 => Some("(the error was not filled in)".into()),
        _ => {
            let s = CStr::from_ptr(m).to_string_lossy().into_owned();
            f::rust_c_string_destroy(m);
            Some(s)
        }
    }
}
fn show_err(e: Option<String>) -> String {
    match e {
        None => "ok".into(),
        Some(m) => format!("error: {}", m),
    }
}
fn done<T, E: std::fmt::Display>(r: &Result<T, E>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("error: {}", e),
    }
}

// ---------------------------------------------------------------- values

#[derive(Clone, Copy, Debug, PartialEq)]
enum Val {
    Str(&'static str),
    Long(i64),
    Ref(i64),
    Kw(&'static str),
    Bool(bool),
    Dbl(f64),
    Ts(i64),
    Uuid([u8; 16]),
}
use Val::*;

impl Val {
    fn typed(&self) -> TypedValue {
        match self {
            Str(s) => TypedValue::typed_string(s),
            Long(x) => TypedValue::Long(*x),
            Ref(x) => TypedValue::Ref(*x),
            Kw(k) => TypedValue::Keyword(kw(k.trim_start_matches(':')).into()),
            Bool(b) => TypedValue::Boolean(*b),
            Dbl(x) => TypedValue::Double((*x).into()),
            Ts(us) => TypedValue::instant(*us),
            Uuid(u) => TypedValue::Uuid(uuid::Uuid::from_bytes(*u)),
        }
    }
    unsafe fn builder(&self, b: *mut InProgressBuilder<'static, 'static>, e: i64, a: &str, retract: bool) -> String {
        let mut er = Err_::new();
        let a = cs(a);
        let a = a.as_ptr();
        macro_rules! call {
            ($add:ident, $retract:ident, $v:expr) => {
                if retract {
                    f::$retract(b, e, a, $v, er.p())
                } else {
                    f::$add(b, e, a, $v, er.p())
                }
            };
        }
        match self {
            Str(s) => call!(in_progress_builder_add_string, in_progress_builder_retract_string, cs(s).as_ptr()),
            Long(x) => call!(in_progress_builder_add_long, in_progress_builder_retract_long, *x),
            Ref(x) => call!(in_progress_builder_add_ref, in_progress_builder_retract_ref, *x),
            Kw(s) => call!(in_progress_builder_add_keyword, in_progress_builder_retract_keyword, cs(s).as_ptr()),
            Bool(x) => call!(in_progress_builder_add_boolean, in_progress_builder_retract_boolean, *x),
            Dbl(x) => call!(in_progress_builder_add_double, in_progress_builder_retract_double, *x),
            Ts(x) => call!(in_progress_builder_add_timestamp, in_progress_builder_retract_timestamp, *x),
            Uuid(u) => call!(in_progress_builder_add_uuid, in_progress_builder_retract_uuid, u),
        }
        show_err(er.take())
    }
    unsafe fn entity(&self, b: *mut EntityBuilder<InProgressBuilder<'static, 'static>>, a: &str, retract: bool) -> String {
        let mut er = Err_::new();
        let a = cs(a);
        let a = a.as_ptr();
        macro_rules! call {
            ($add:ident, $retract:ident, $v:expr) => {
                if retract {
                    f::$retract(b, a, $v, er.p())
                } else {
                    f::$add(b, a, $v, er.p())
                }
            };
        }
        match self {
            Str(s) => call!(entity_builder_add_string, entity_builder_retract_string, cs(s).as_ptr()),
            Long(x) => call!(entity_builder_add_long, entity_builder_retract_long, *x),
            Ref(x) => call!(entity_builder_add_ref, entity_builder_retract_ref, *x),
            Kw(s) => call!(entity_builder_add_keyword, entity_builder_retract_keyword, cs(s).as_ptr()),
            Bool(x) => call!(entity_builder_add_boolean, entity_builder_retract_boolean, *x),
            Dbl(x) => call!(entity_builder_add_double, entity_builder_retract_double, *x),
            Ts(x) => call!(entity_builder_add_timestamp, entity_builder_retract_timestamp, *x),
            Uuid(u) => call!(entity_builder_add_uuid, entity_builder_retract_uuid, u),
        }
        show_err(er.take())
    }
    unsafe fn bind(&self, q: *mut mentat::QueryBuilder, var: &str, ident: bool) {
        let var = cs(var);
        let var = var.as_ptr();
        match self {
            Str(s) => f::query_builder_bind_string(q, var, cs(s).as_ptr()),
            Long(x) => f::query_builder_bind_long(q, var, *x),
            Ref(x) => f::query_builder_bind_ref(q, var, *x),
            Kw(s) if ident => f::query_builder_bind_ref_kw(q, var, cs(s).as_ptr()),
            Kw(s) => f::query_builder_bind_kw(q, var, cs(s).as_ptr()),
            Bool(x) => f::query_builder_bind_boolean(q, var, *x),
            Dbl(x) => f::query_builder_bind_double(q, var, *x),
            Ts(x) => f::query_builder_bind_timestamp(q, var, *x),
            Uuid(u) => f::query_builder_bind_uuid(q, var, u),
        }
    }
}

fn plain(v: &TypedValue) -> String {
    match v {
        // The interface hands out seconds.
        TypedValue::Instant(t) => format!("2 {}", t.timestamp()),
        TypedValue::Ref(x) => format!("0 {}", x),
        TypedValue::Boolean(x) => format!("1 {}", *x as i32),
        TypedValue::Long(x) => format!("3 {}", x),
        TypedValue::Double(x) => format!("4 {:?}", x.into_inner()),
        TypedValue::String(x) => format!("5 {}", x),
        TypedValue::Keyword(x) => format!("6 {}", x),
        TypedValue::Uuid(x) => format!("7 {:?}", x.as_bytes()),
    }
}
fn plain_binding(b: &Binding) -> String {
    match b {
        Binding::Scalar(v) => plain(v),
        b => format!("{:?}", b),
    }
}

unsafe fn take_string(s: *mut c_char) -> String {
    let r = CStr::from_ptr(s).to_string_lossy().into_owned();
    f::rust_c_string_destroy(s);
    r
}
unsafe fn take_uuid(u: *mut [u8; 16]) -> [u8; 16] {
    let r = *u;
    f::uuid_destroy(u);
    r
}
/// What a value is, using it up.
unsafe fn value(v: *mut Binding) -> String {
    if v.is_null() {
        return "null".into();
    }
    if let Binding::Scalar(_) = *v {
    } else {
        let s = format!("{:?}", *v);
        f::typed_value_destroy(v);
        return s;
    }
    let t = f::typed_value_value_type(v);
    let n = t as u32;
    match t {
        ValueType::Ref => format!("{} {}", n, f::typed_value_into_entid(v)),
        ValueType::Boolean => format!("{} {}", n, f::typed_value_into_boolean(v)),
        ValueType::Instant => format!("{} {}", n, f::typed_value_into_timestamp(v)),
        ValueType::Long => format!("{} {}", n, f::typed_value_into_long(v)),
        ValueType::Double => format!("{} {:?}", n, f::typed_value_into_double(v)),
        ValueType::String => format!("{} {}", n, take_string(f::typed_value_into_string(v))),
        ValueType::Keyword => format!("{} {}", n, take_string(f::typed_value_into_kw(v))),
        ValueType::Uuid => format!("{} {:?}", n, take_uuid(f::typed_value_into_uuid(v))),
    }
}
/// What a list of values is, leaving it as it is. Every value by index, past both ends too, in both ways.
unsafe fn list(l: *mut Vec<Binding>, n: usize) -> Vec<String> {
    let mut out = vec![];
    for i in -1..=(n as i32 + 2) {
        let v = f::value_at_index(l, i);
        if i < 0 || i >= n as i32 {
            if !v.is_null() {
                out.push(format!("something at {}: {}", i, value(v)));
            }
            continue;
        }
        if v.is_null() {
            out.push("null".into());
            continue;
        }
        let again = match *v {
            Binding::Scalar(_) => {
                let t = f::typed_value_value_type(v);
                let n = t as u32;
                Some(match t {
                    ValueType::Ref => format!("{} {}", n, f::value_at_index_into_entid(l, i)),
                    ValueType::Boolean => format!("{} {}", n, f::value_at_index_into_boolean(l, i)),
                    ValueType::Instant => format!("{} {}", n, f::value_at_index_into_timestamp(l, i)),
                    ValueType::Long => format!("{} {}", n, f::value_at_index_into_long(l, i)),
                    ValueType::Double => format!("{} {:?}", n, f::value_at_index_into_double(l, i)),
                    ValueType::String => format!("{} {}", n, take_string(f::value_at_index_into_string(l, i))),
                    ValueType::Keyword => format!("{} {}", n, take_string(f::value_at_index_into_kw(l, i))),
                    ValueType::Uuid => format!("{} {:?}", n, take_uuid(f::value_at_index_into_uuid(l, i))),
                })
            }
            _ => None,
        };
        let s = value(v);
        if let Some(a) = again {
            if a != s {
                out.push(format!("{} here and {} there", s, a));
                continue;
            }
        }
        out.push(s);
    }
    out
}
/// What a list of values is, by iterating over it, using it up.
unsafe fn iterate(l: *mut Vec<Binding>, stop: usize) -> Vec<String> {
    let it = f::typed_value_list_into_iter(l);
    let mut out = vec![];
    while out.len() < stop {
        let v = f::typed_value_list_iter_next(it);
        if v.is_null() {
            break;
        }
        out.push(value(v));
    }
    if out.len() < stop && !f::typed_value_list_iter_next(it).is_null() {
        out.push("something after the end".into());
    }
    f::typed_value_list_iter_destroy(it);
    out
}

// ---------------------------------------------------------------- the two ways to run a case

struct Base {
    image: Image,
    a: i64,
    b: i64,
    attr: i64,
}

fn base() -> Base {
    let disk = DiskRef::new(&Image::new());
    let mut d = Db::open(&disk.uri()).expect("open");
    d.must(super::c10::vocabulary());
    let r = d.must("[[:db/add \"a\" :t/l 1] [:db/add \"b\" :t/l 2]]");
    let (a, b) = (r.tempids["a"], r.tempids["b"]);
    d.must(&format!(
        "[[:db/add {a} :t/lm 1] [:db/add {a} :t/lm 2] [:db/add {a} :t/m 1] [:db/add {a} :t/d 0.1] [:db/add {a} :t/lm 9007199254740993] [:db/add {a} :t/b true] [:db/add {a} :t/r {b}] [:db/add {a} :t/s \"x\"] [:db/add {a} :t/k :t/l]
          [:db/add {a} :t/i #inst \"1969-12-31T23:59:58.500001Z\"] [:db/add {a} :t/u #uuid \"00010203-0405-0607-0809-0a0b0c0d0e0f\"] [:db/add {a} :t/f \"x y\"] [:db/add {b} :t/f \"é\"]
          [:db/add {b} :t/b false] [:db/add {b} :t/rm {a}] [:db/add {b} :t/rm {b}] [:db/add {b} :t/d -0.0] [:db/add {b} :t/s \"\"] [:db/add {b} :t/i #inst \"2018-01-01T00:00:00.999999Z\"]]",
        a = a, b = b
    ));
    let attr = d.entid("t/l");
    drop(d);
    Base { image: disk.image(), a, b, attr }
}

/// What the store holds, without the times at which its transactions were made (those of `times` aside).
fn content(disk: &DiskRef, tx_instant: i64) -> (Vec<String>, std::collections::BTreeMap<i64, i64>) {
    let sql = mentat::new_connection(&disk.uri()).expect("connection");
    let mut out = vec![];
    let mut times = std::collections::BTreeMap::new();
    for (tx, e, a, v, added, timeline) in log_rows(&sql) {
        if a == tx_instant {
            if let crate::val::V::Inst(us) = v {
                times.insert(tx, us);
            }
            out.push(format!("{:?}", (tx, e, a, added, timeline)));
        } else {
            out.push(format!("{:?}", (tx, e, a, v, added, timeline)));
        }
    }
    out.sort();
    let mut ds: Vec<String> = datoms(&sql).into_iter().filter(|((_, a, _), _)| *a != tx_instant).map(|d| format!("{:?}", d)).collect();
    ds.sort();
    out.extend(ds);
    (out, times)
}

struct Case<'a> {
    ctx: &'a Ctx,
    base: &'a Base,
}

impl<'a> Case<'a> {
    /// `ffi` on the C interface, `lib` on the library: what they report must be equal, and what they leave in the store.
    fn run(&self, name: &str, tag: &str, ffi: impl Fn(*mut Store) -> Vec<String>, lib: impl Fn(&'static mut Store) -> Vec<String>) {
        let ctx = self.ctx;
        let disk = DiskRef::new(&self.base.image);
        let want = {
            let p = Box::into_raw(Box::new(Store::open(&disk.uri()).expect("open")));
            let r = lib(unsafe { &mut *p });
            drop(unsafe { Box::from_raw(p) });
            r
        };
        let tx_instant = 3;
        let (want_content, _) = content(&disk, tx_instant);
        drop(disk);
        let mut live = vec![];
        for round in 0..3 {
            let before = crate::alloc::live();
            let disk = DiskRef::new(&self.base.image);
            let t0 = chrono::Utc::now().timestamp();
            let got = {
                let uri = cs(&disk.uri());
                let mut e = Err_::new();
                unsafe {
                    let s = f::store_open(uri.as_ptr(), e.p());
                    if let Some(m) = e.take() {
                        ctx.violation(format!("C25/{}/open", tag), name, format!("store_open reports {}", m));
                        return;
                    }
                    let got = ffi(s);
                    f::store_destroy(s);
                    got
                }
            };
            if round > 0 {
                drop(got);
                drop(disk);
                live.push(crate::alloc::live() - before);
                continue;
            }
            let t1 = chrono::Utc::now().timestamp();
            let (got_content, times) = content(&disk, tx_instant);
            ctx.trace(1);
            ctx.transition(got.len() as u64);
            ctx.outcome(&(tag, &got));
            // Reports name the second of their transaction: "tx <id> at <seconds>".
            let mut got2 = vec![];
            for g in &got {
                match g.split(" at ").nth(1).and_then(|r| r.split(' ').next()).and_then(|s| s.parse::<i64>().ok()) {
                    Some(at) if g.starts_with("tx ") => {
                        let tx: i64 = g.split(' ').nth(1).unwrap().parse().unwrap();
                        // The same number may have been given to a transaction that was rolled back.
                        let stored = times.get(&tx).map_or(false, |us| us.div_euclid(1_000_000) == at);
                        let now = t0 <= at && at <= t1;
                        let fixed = at == FIXED;
                        let s = g.replacen(&format!(" at {}", at), if stored || now || fixed { "" } else { " at the wrong time" }, 1);
                        got2.push(if fixed { format!("{} (fixed)", s) } else { s });
                    }
                    _ => got2.push(g.clone()),
                }
            }
            ctx.sample(tag, || format!("{}: {}", name, got2.join("; ")));
            if got2 != want {
                let k = got2.iter().zip(&want).take_while(|(a, b)| a == b).count();
                ctx.violation(
                    format!("C25/{}/differs", tag),
                    name,
                    format!("step {}: the C interface gives {:?}, the library {:?}\n(C: {:?}\nlibrary: {:?})", k, got2.get(k), want.get(k), got2, want),
                );
            } else if got_content != want_content {
                let only = |x: &[String], y: &[String]| x.iter().filter(|l| !y.contains(l)).cloned().collect::<Vec<_>>();
                ctx.violation(
                    format!("C25/{}/content", tag),
                    name,
                    format!("through the C interface the store has {:?} which it hasn't through the library, and lacks {:?}", only(&got_content, &want_content), only(&want_content, &got_content)),
                );
            }
        }
        if ctx.only.is_some() { eprintln!("live {:?}", live); }
        // (Observers are destroyed on another thread.)
        if tag != "observers" && live[0] > 0 && live[0] == live[1] {
            ctx.violation(format!("C25/{}/leak", tag), name, format!("when everything is destroyed, {} allocations are left each time", live[0]));
        }
    }
}

/// The second that the transaction "fixed" gives itself.
const FIXED: i64 = -2;

// ---------------------------------------------------------------- sequences of calls

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Begin,
    Transact(usize),
    StoreBuilder,
    StoreEntityTemp,
    StoreEntityId,
    IpTransact(usize),
    Commit,
    Rollback,
    Builder,
    EntityTemp,
    EntityId,
    Assert(usize),
    BTransact,
    BCommit,
    Drop,
}
use Op::*;

fn texts(b: &Base) -> Vec<String> {
    vec![
        format!("[[:db/add \"x\" :t/lm 7] [:db/add {} :t/l 9]]", b.a),
        "[[:db/add \"x\" :t/lm \"no\"]]".into(),
        "[[:db/add (transaction-tx) :db/txInstant #inst \"1969-12-31T23:59:58.25Z\"] [:db/add \"y\" :t/s \"z\"]]".into(),
        "[[:db/add".into(),
    ]
}
/// (entity, attribute, value, retract)
fn assertions(b: &Base) -> Vec<(i64, &'static str, Val, bool)> {
    vec![(b.a, ":t/lm", Long(5), false), (b.a, ":t/lm", Long(1), true), (b.b, ":t/l", Str("no"), false)]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Idle,
    Ip,
    Bd,
    Eb,
}
/// What can be called, and where it leads if it succeeds; calls that use up their object lead to Idle either way.
fn next(s: St) -> Vec<(Op, St)> {
    match s {
        St::Idle => vec![
            (Begin, St::Ip),
            (Transact(0), St::Idle),
            (Transact(1), St::Idle),
            (Transact(2), St::Idle),
            (Transact(3), St::Idle),
            (StoreBuilder, St::Bd),
            (StoreEntityTemp, St::Eb),
            (StoreEntityId, St::Eb),
        ],
        St::Ip => vec![
            (IpTransact(0), St::Ip),
            (IpTransact(1), St::Ip),
            (IpTransact(2), St::Ip),
            (Commit, St::Idle),
            (Rollback, St::Idle),
            (Drop, St::Idle),
            (Builder, St::Bd),
            (EntityTemp, St::Eb),
            (EntityId, St::Eb),
        ],
        St::Bd | St::Eb => vec![(Assert(0), s), (Assert(1), s), (Assert(2), s), (BTransact, St::Ip), (BCommit, St::Idle), (Drop, St::Idle)],
    }
}
fn calls(n: usize) -> Vec<Vec<Op>> {
    fn go(s: St, n: usize, cur: &mut Vec<Op>, out: &mut Vec<Vec<Op>>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for (o, t) in next(s) {
            cur.push(o);
            go(t, n - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(St::Idle, n, &mut vec![], &mut out);
    out
}

/// The tempids that anything here uses.
const TEMPIDS: [&str; 4] = ["x", "y", "t", "none"];

unsafe fn report(r: *mut TxReport, e: Option<String>) -> String {
    if r.is_null() {
        return show_err(e.or_else(|| Some("(none)".into())));
    }
    let mut s = format!("tx {} at {}", f::tx_report_get_entid(r), f::tx_report_get_tx_instant(r));
    for t in TEMPIDS {
        let p = f::tx_report_entity_for_temp_id(r, cs(t).as_ptr());
        if !p.is_null() {
            s += &format!(" {}={}", t, *p);
            f::destroy(p as *mut libc_void);
        }
    }
    if let Some(e) = e {
        s += &format!(" and an error: {}", e);
    }
    f::tx_report_destroy(r);
    s
}
#[allow(non_camel_case_types)]
type libc_void = std::os::raw::c_void;

fn lib_report(r: mentat::errors::Result<TxReport>) -> String {
    match r {
        Err(e) => format!("error: {}", e),
        Ok(r) => {
            let mut s = format!("tx {}", r.tx_id);
            for t in TEMPIDS {
                if let Some(e) = r.tempids.get(t) {
                    s += &format!(" {}={}", t, e);
                }
            }
            if r.tx_instant.timestamp() == FIXED {
                s += " (fixed)";
            }
            s
        }
    }
}

enum Held {
    Idle,
    Ip(*mut InProgress<'static, 'static>),
    Bd(*mut InProgressBuilder<'static, 'static>),
    Eb(*mut EntityBuilder<InProgressBuilder<'static, 'static>>),
}

unsafe fn ffi_calls(s: *mut Store, ops: &[Op], b: &Base) -> Vec<String> {
    let ts = texts(b);
    let asserts = assertions(b);
    let mut h = Held::Idle;
    let mut out = vec![];
    for o in ops {
        let mut e = Err_::new();
        // Calls that can't fail have no error to fill in.
        let r = match (o, &h) {
            (Begin, Held::Idle) => {
                h = Held::Ip(f::store_begin_transaction(s, e.p()));
                show_err(e.take())
            }
            (Transact(i), Held::Idle) => {
                let r = f::store_transact(s, cs(&ts[*i]).as_ptr(), e.p());
                report(r, e.take())
            }
            (StoreBuilder, Held::Idle) => {
                h = Held::Bd(f::store_in_progress_builder(s, e.p()));
                show_err(e.take())
            }
            (StoreEntityTemp, Held::Idle) => {
                h = Held::Eb(f::store_entity_builder_from_temp_id(s, cs("t").as_ptr(), e.p()));
                show_err(e.take())
            }
            (StoreEntityId, Held::Idle) => {
                h = Held::Eb(f::store_entity_builder_from_entid(s, b.b, e.p()));
                show_err(e.take())
            }
            (IpTransact(i), Held::Ip(p)) => {
                let r = f::in_progress_transact(*p, cs(&ts[*i]).as_ptr(), e.p());
                report(r, e.take())
            }
            (Commit, Held::Ip(p)) => {
                f::in_progress_commit(*p, e.p());
                h = Held::Idle;
                show_err(e.take())
            }
            (Rollback, Held::Ip(p)) => {
                f::in_progress_rollback(*p, e.p());
                h = Held::Idle;
                show_err(e.take())
            }
            (Builder, Held::Ip(p)) => {
                h = Held::Bd(f::in_progress_builder(*p));
                "ok".into()
            }
            (EntityTemp, Held::Ip(p)) => {
                h = Held::Eb(f::in_progress_entity_builder_from_temp_id(*p, cs("t").as_ptr()));
                "ok".into()
            }
            (EntityId, Held::Ip(p)) => {
                h = Held::Eb(f::in_progress_entity_builder_from_entid(*p, b.b));
                "ok".into()
            }
            (Assert(i), Held::Bd(p)) => {
                let (en, a, v, r) = asserts[*i];
                v.builder(*p, en, a, r)
            }
            (Assert(i), Held::Eb(p)) => {
                let (_, a, v, r) = asserts[*i];
                v.entity(*p, a, r)
            }
            (BTransact, Held::Bd(p)) => {
                let r = f::in_progress_builder_transact(*p);
                h = Held::Ip(r.in_progress);
                report(r.tx_report, message(r.err.message))
            }
            (BTransact, Held::Eb(p)) => {
                let r = f::entity_builder_transact(*p);
                h = Held::Ip(r.in_progress);
                report(r.tx_report, message(r.err.message))
            }
            (BCommit, Held::Bd(p)) => {
                let r = f::in_progress_builder_commit(*p, e.p());
                h = Held::Idle;
                report(r, e.take())
            }
            (BCommit, Held::Eb(p)) => {
                let r = f::entity_builder_commit(*p, e.p());
                h = Held::Idle;
                report(r, e.take())
            }
            (Drop, Held::Ip(p)) => {
                f::in_progress_destroy(*p);
                h = Held::Idle;
                "ok".into()
            }
            (Drop, Held::Bd(p)) => {
                f::in_progress_builder_destroy(*p);
                h = Held::Idle;
                "ok".into()
            }
            (Drop, Held::Eb(p)) => {
                f::entity_builder_destroy(*p);
                h = Held::Idle;
                "ok".into()
            }
            _ => "not possible".into(),
        };
        out.push(r);
    }
    match h {
        Held::Idle => (),
        Held::Ip(p) => f::in_progress_destroy(p),
        Held::Bd(p) => f::in_progress_builder_destroy(p),
        Held::Eb(p) => f::entity_builder_destroy(p),
    }
    out
}

enum Lib {
    Idle,
    Ip(InProgress<'static, 'static>),
    Bd(InProgressBuilder<'static, 'static>),
    Eb(EntityBuilder<InProgressBuilder<'static, 'static>>),
}

fn lib_calls(s: *mut Store, ops: &[Op], b: &Base) -> Vec<String> {
    let ts = texts(b);
    let asserts = assertions(b);
    let mut h = Lib::Idle;
    let mut out = vec![];
    let at = s as usize;
    let begin = || -> InProgress<'static, 'static> { unsafe { &mut *(at as *mut Store) }.begin_transaction().expect("begin") };
    for o in ops {
        let (h2, r) = match (*o, h) {
            (Begin, Lib::Idle) => (Lib::Ip(begin()), "ok".into()),
            (Transact(i), Lib::Idle) => (Lib::Idle, lib_report(unsafe { &mut *s }.transact(ts[i].as_str()))),
            (StoreBuilder, Lib::Idle) => (Lib::Bd(begin().builder()), "ok".into()),
            (StoreEntityTemp, Lib::Idle) => (Lib::Eb(begin().builder().describe_tempid("t")), "ok".into()),
            (StoreEntityId, Lib::Idle) => (Lib::Eb(begin().builder().describe(KnownEntid(b.b))), "ok".into()),
            (IpTransact(i), Lib::Ip(mut ip)) => {
                let r = lib_report(ip.transact(ts[i].as_str()));
                (Lib::Ip(ip), r)
            }
            (Commit, Lib::Ip(ip)) => (Lib::Idle, done(&ip.commit())),
            (Rollback, Lib::Ip(ip)) => (Lib::Idle, done(&ip.rollback())),
            (Builder, Lib::Ip(ip)) => (Lib::Bd(ip.builder()), "ok".into()),
            (EntityTemp, Lib::Ip(ip)) => (Lib::Eb(ip.builder().describe_tempid("t")), "ok".into()),
            (EntityId, Lib::Ip(ip)) => (Lib::Eb(ip.builder().describe(KnownEntid(b.b))), "ok".into()),
            (Assert(i), Lib::Bd(mut bd)) => {
                let (en, a, v, r) = asserts[i];
                let x = lib_assert(&mut bd, en, a, v, r);
                (Lib::Bd(bd), x)
            }
            (Assert(i), Lib::Eb(mut eb)) => {
                let (_, a, v, r) = asserts[i];
                let x = lib_entity(&mut eb, a, v, r);
                (Lib::Eb(eb), x)
            }
            (BTransact, Lib::Bd(bd)) => {
                let (ip, r) = bd.transact();
                (Lib::Ip(ip), lib_report(r))
            }
            (BTransact, Lib::Eb(bd)) => {
                let (ip, r) = bd.transact();
                (Lib::Ip(ip), lib_report(r))
            }
            (BCommit, Lib::Bd(bd)) => (Lib::Idle, lib_report(bd.commit())),
            (BCommit, Lib::Eb(bd)) => (Lib::Idle, lib_report(bd.commit())),
            (Drop, _) => (Lib::Idle, "ok".into()),
            (_, h) => (h, "not possible".into()),
        };
        h = h2;
        out.push(r);
    }
    out
}
fn lib_assert(b: &mut InProgressBuilder<'static, 'static>, e: i64, a: &str, v: Val, retract: bool) -> String {
    let a = kw(a.trim_start_matches(':'));
    done(&if retract { b.retract(KnownEntid(e), a, v.typed()) } else { b.add(KnownEntid(e), a, v.typed()) })
}
fn lib_entity(b: &mut EntityBuilder<InProgressBuilder<'static, 'static>>, a: &str, v: Val, retract: bool) -> String {
    let a = kw(a.trim_start_matches(':'));
    done(&if retract { b.retract(a, v.typed()) } else { b.add(a, v.typed()) })
}

// ---------------------------------------------------------------- queries

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Scalar,
    Coll,
    Tuple,
    Rel,
}

unsafe fn ffi_query(s: *mut Store, q: &str, binds: &[(&str, Val, bool)], how: How) -> Vec<String> {
    let mut out = vec![];
    let b = f::store_query(s, cs(q).as_ptr());
    for (var, v, ident) in binds {
        v.bind(b, var, *ident);
    }
    let mut e = Err_::new();
    match how {
        How::Scalar => {
            let r = f::query_builder_execute_scalar(b, e.p());
            out.push(show_err(e.take()));
            out.push(value(r));
        }
        How::Coll | How::Tuple => {
            let r = if how == How::Coll { f::query_builder_execute_coll(b, e.p()) } else { f::query_builder_execute_tuple(b, e.p()) };
            out.push(show_err(e.take()));
            if r.is_null() {
                out.push("null".into());
            } else {
                let n = (*r).len();
                let one = list(r, n);
                let two = iterate(r, n + 3);
                if one != two {
                    out.push(format!("{:?} by index, {:?} in turn", one, two));
                } else {
                    out.extend(one);
                }
            }
        }
        How::Rel => {
            let r = f::query_builder_execute(b, e.p());
            out.push(show_err(e.take()));
            if r.is_null() {
                out.push("null".into());
            } else {
                let it = f::typed_value_result_set_into_iter(r);
                let mut i = 0;
                loop {
                    let one = f::row_at_index(r, i);
                    let two = f::typed_value_result_set_iter_next(it);
                    if one.is_null() != two.is_null() {
                        out.push(format!("row {} is missing {}", i, if one.is_null() { "by index" } else { "in turn" }));
                    }
                    if one.is_null() && two.is_null() || i > 200 {
                        break;
                    }
                    let mut rows = vec![];
                    for l in [one, two] {
                        if !l.is_null() {
                            let n = (*l).len();
                            let c = list(l, n);
                            // Lists are given back used and unused.
                            if i % 2 == 0 {
                                f::typed_value_list_destroy(l);
                            } else {
                                iterate(l, (i as usize) % 3);
                            }
                            rows.push(c);
                        }
                    }
                    rows.dedup();
                    out.push(rows.iter().map(|r| format!("{:?}", r)).collect::<Vec<_>>().join(" but "));
                    i += 1;
                }
                for j in [-1, -2, i + 1, i32::MAX, i32::MIN] {
                    let l = f::row_at_index(r, j);
                    if !l.is_null() {
                        out.push(format!("a row at {}", j));
                        f::typed_value_list_destroy(l);
                    }
                }
                f::typed_value_result_set_iter_destroy(it);
                f::typed_value_result_set_destroy(r);
            }
        }
    }
    f::query_builder_destroy(b);
    out
}

fn lib_query(s: &mut Store, q: &str, binds: &[(&str, Val, bool)], how: How) -> Vec<String> {
    let inputs = QueryInputs::with_value_sequence(
        binds
            .iter()
            .map(|(var, v, ident)| {
                let t = match v {
                    Kw(k) if *ident => TypedValue::Ref(s.conn().current_schema().get_entid(&kw(k.trim_start_matches(':'))).expect("ident").into()),
                    v => v.typed(),
                };
                (Variable::from_valid_name(var), t)
            })
            .collect(),
    );
    let r = s.begin_read().and_then(|r| r.q_once(q, inputs));
    let mut out = vec![];
    let r = match r {
        Err(e) => return vec![format!("error: {}", e), "null".into()],
        Ok(r) => r,
    };
    // Asking for another kind of result than the query's is refused.
    let fits = matches!(
        (&*r.spec, how),
        (FindSpec::FindScalar(_), How::Scalar) | (FindSpec::FindColl(_), How::Coll) | (FindSpec::FindTuple(_), How::Tuple) | (FindSpec::FindRel(_), How::Rel)
    );
    if !fits {
        return vec![
            match how {
                How::Scalar => done(&r.into_scalar()),
                How::Coll => done(&r.into_coll()),
                How::Tuple => done(&r.into_tuple::<Vec<Binding>>()),
                How::Rel => done(&r.into_rel()),
            },
            "null".into(),
        ];
    }
    out.push("ok".to_string());
    match r.results {
        QueryResults::Scalar(None) | QueryResults::Tuple(None) => out.push("null".into()),
        QueryResults::Scalar(Some(b)) => out.push(plain_binding(&b)),
        QueryResults::Tuple(Some(bs)) | QueryResults::Coll(bs) => out.extend(bs.iter().map(plain_binding)),
        QueryResults::Rel(rel) => {
            let n = rel.values.len() / rel.width;
            for i in 0..n {
                out.push(format!("{:?}", rel.values[i * rel.width..(i + 1) * rel.width].iter().map(plain_binding).collect::<Vec<_>>()));
            }
        }
    }
    out
}

const ATTRS: [&str; 14] = [":t/l", ":t/m", ":t/lm", ":t/d", ":t/b", ":t/r", ":t/rm", ":t/s", ":t/k", ":t/i", ":t/u", ":t/f", ":db/ident", ":db/doc"];

fn queries(b: &Base) -> Vec<String> {
    let mut out = vec![];
    for at in ATTRS {
        out.push(format!("[:find ?v . :where [{} {} ?v]]", b.a, at));
        out.push(format!("[:find [?v ...] :where [_ {} ?v] :order ?v]", at));
        out.push(format!("[:find [?e ?v] :where [?e {} ?v] :order ?e ?v]", at));
        out.push(format!("[:find ?e ?v :where [?e {} ?v] :order ?e ?v]", at));
    }
    out.push(format!("[:find ?l ?d ?b ?s ?i :where [{0} :t/l ?l] [{0} :t/d ?d] [{0} :t/b ?b] [{0} :t/s ?s] [{0} :t/i ?i]]", b.a));
    out.push(format!("[:find [?l ?d ?b ?s ?i ?u ?k] :where [{0} :t/l ?l] [{0} :t/d ?d] [{0} :t/b ?b] [{0} :t/s ?s] [{0} :t/i ?i] [{0} :t/u ?u] [{0} :t/k ?k]]", b.a));
    out.push(format!("[:find ?a ?v :where [{} ?a ?v] :order ?a ?v]", b.a));
    out.push(format!("[:find [(pull {} [*]) ...] :where [?x :t/l _]]", b.a).replace(&format!("(pull {} [*])", b.a), "(pull ?x [:t/l :t/s])"));
    out.push("[:find (count ?x) . :where [?x :t/l _]]".into());
    out.push("[:find ?x :where [?x :t/nope _]]".into());
    out.push("[:find ?x . :where [?x :t/l 77]]".into());
    out.push("[:find [?x ...] :where [?x :t/l 77]]".into());
    out.push("[:find [?x ?y] :where [?x :t/l ?y] [?y :t/l 77]]".into());
    out.push("[:find ?x ?y :where [?x :t/l ?y] [?y :t/l 77]]".into());
    out.push("[:find ?x".into());
    out
}

// ---------------------------------------------------------------- observers

type Seen = Vec<(String, Vec<(i64, Vec<i64>)>)>;
static SEEN: Mutex<Seen> = Mutex::new(vec![]);
static CALLED: Condvar = Condvar::new();

extern "C" fn callback(key: *const c_char, list: &f::TxChangeList) {
    let key = unsafe { CStr::from_ptr(key) }.to_string_lossy().into_owned();
    let mut txs = vec![];
    let l = list as *const f::TxChangeList as *mut f::TxChangeList;
    for i in 0..list.len {
        let t = unsafe { f::tx_change_list_entry_at(l, i as i32) };
        let n = unsafe { (*t).changes_len };
        let cs = (0..n).map(|j| unsafe { f::changelist_entry_at(t as *mut f::TransactionChange, j as i32) }).collect();
        txs.push((unsafe { (*t).txid }, cs));
    }
    SEEN.lock().unwrap().push((key, txs));
    CALLED.notify_all();
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ob {
    Register(&'static str, &'static [&'static str]),
    Unregister(&'static str),
    Tx(&'static str),
    Pair,
}
fn observer_ops() -> Vec<Ob> {
    vec![
        Ob::Register("one", &[":t/l"]),
        Ob::Register("one", &[":t/lm", ":t/s"]),
        Ob::Register("two", &[":t/l", ":t/s", ":t/lm"]),
        Ob::Register("two", &[]),
        Ob::Unregister("one"),
        Ob::Unregister("none"),
        Ob::Tx("[[:db/add \"x\" :t/l 5] [:db/add \"x\" :t/s \"new\"] [:db/add \"x\" :t/d 5.5] [:db/add \"x\" :t/b true]]"),
        Ob::Tx("[[:db/add \"x\" :t/lm 5]]"),
        Ob::Tx("[[:db/add \"x\" :t/l \"bad\"]]"),
        Ob::Pair,
    ]
}
const PAIR: [&str; 2] = ["[[:db/add \"x\" :t/lm 6]]", "[[:db/add \"x\" :t/l 6] [:db/add \"x\" :t/lm 7]]"];
const LAST: &str = "[[:db/add \"x\" :t/d 6.5]]";

/// Waits for the last observer's call.
fn heard() -> Vec<String> {
    let mut s = SEEN.lock().unwrap();
    let t = std::time::Instant::now();
    while !s.iter().any(|(k, _)| k == "last") && t.elapsed().as_secs() < 20 {
        s = CALLED.wait_timeout(s, std::time::Duration::from_millis(200)).unwrap().0;
    }
    // The order in which the observers of one batch are called is not specified.
    let mut all = std::mem::take(&mut *s);
    all.sort_by_key(|(k, t)| (t.last().map(|x| x.0), k.clone()));
    all.into_iter().map(|s| format!("{:?}", s)).collect()
}

unsafe fn ffi_observe(s: *mut Store, ops: &[Ob]) -> Vec<String> {
    SEEN.lock().unwrap().clear();
    let register = |key: &str, attrs: &[&str]| {
        let ids: Vec<i64> = attrs.iter().map(|a| f::store_entid_for_attribute(s, cs(a).as_ptr())).collect();
        f::store_register_observer(s, cs(key).as_ptr(), ids.as_ptr(), ids.len(), callback);
    };
    let transact = |t: &str| {
        let mut e = Err_::new();
        let r = f::store_transact(s, cs(t).as_ptr(), e.p());
        report(r, e.take())
    };
    let mut out = vec![];
    for o in ops {
        match o {
            Ob::Register(k, a) => register(k, a),
            Ob::Unregister(k) => f::store_unregister_observer(s, cs(k).as_ptr()),
            Ob::Tx(t) => out.push(transact(t)),
            Ob::Pair => {
                let mut e = Err_::new();
                let ip = f::store_begin_transaction(s, e.p());
                out.push(show_err(e.take()));
                for t in PAIR {
                    let mut e = Err_::new();
                    let r = f::in_progress_transact(ip, cs(t).as_ptr(), e.p());
                    out.push(report(r, e.take()));
                }
                let mut e = Err_::new();
                f::in_progress_commit(ip, e.p());
                out.push(show_err(e.take()));
            }
        }
    }
    register("last", &[":t/d"]);
    out.push(transact(LAST));
    out.extend(heard());
    out
}
fn lib_observe(s: &mut Store, ops: &[Ob]) -> Vec<String> {
    SEEN.lock().unwrap().clear();
    let register = |s: &mut Store, key: &str, attrs: &[&str]| {
        let ids = attrs.iter().map(|a| i64::from(s.conn().current_schema().get_entid(&kw(a.trim_start_matches(':'))).expect("ident"))).collect();
        s.register_observer(
            key.to_string(),
            Arc::new(TxObserver::new(ids, |key, batch| {
                let txs = batch.into_iter().map(|(tx, set)| (*tx, set.iter().cloned().collect())).collect();
                SEEN.lock().unwrap().push((key.to_string(), txs));
                CALLED.notify_all();
            })),
        );
    };
    let mut out = vec![];
    for o in ops {
        match o {
            Ob::Register(k, a) => register(s, k, a),
            Ob::Unregister(k) => s.unregister_observer(&k.to_string()),
            Ob::Tx(t) => out.push(lib_report(s.transact(*t))),
            Ob::Pair => {
                let mut ip = s.begin_transaction().expect("begin");
                out.push("ok".into());
                for t in PAIR {
                    out.push(lib_report(ip.transact(t)));
                }
                out.push(done(&ip.commit()));
            }
        }
    }
    register(s, "last", &[":t/d"]);
    out.push(lib_report(s.transact(LAST)));
    out.extend(heard());
    out
}

// ---------------------------------------------------------------- the enumeration

pub fn run(ctx: &Ctx) {
    workers::run(ctx, |c| cases(ctx, c));
    if workers::share().is_none() {
        ctx.state(ctx.counter("cases"));
    }
}

fn cases(ctx: &Ctx, c: &mut Cases<'_>) {
    let base = base();
    let t = Case { ctx, base: &base };
    let part = std::env::var("MC_PART").ok();
    let on = |p: &str| part.as_ref().map_or(true, |x| x == p);
    let (a, b) = (base.a, base.b);

    // Every assertion.
    if on("assert") {
        let vals: Vec<Val> = vec![
            Str("x"), Str(""), Str("é\n\"x"), Long(1), Long(-1), Long(i64::MAX), Ref(a), Ref(b), Kw(":t/l"), Kw(":t.u/new-one"), Bool(true), Bool(false), Dbl(1.5), Dbl(-0.0), Dbl(2.0), Dbl(0.1),
            Dbl(1e300), Long(4_294_967_297), Long(9_007_199_254_740_993), Ts(4_102_444_800_123_456), Ts(-1_499_999), Ts(1_514_764_800_999_999), Ts(0), Uuid([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]), Uuid([255; 16]),
        ];
        let mut attrs = ATTRS.to_vec();
        attrs.push(":t/nope");
        for at in &attrs {
            for v in &vals {
                for (retract, held) in [(false, false), (true, false), (true, true)] {
                    for target in 0..5 {
                        if held && (target == 3 || target == 1) {
                            continue;
                        }
                        if target == 1 && !ctx.thorough && *at != ":t/l" && *at != ":t/s" {
                            continue;
                        }
                        c.case(
                            || format!("assert|{} {:?} {}{}{}", at, v, if held { "held and " } else { "" }, if retract { "retracted from " } else { "" }, ["a", "b", "an entity a", "an entity t", "an entity b, in two steps"][target]),
                            |name| {
                                ctx.count("cases", 1);
                                let ent = if target == 0 || target == 2 { a } else { b };
                                let commit = target != 4;
                                let hold = |s: &mut Store| {
                                    if held {
                                        let mut bd = s.begin_transaction().expect("begin").builder();
                                        let _ = bd.add(KnownEntid(ent), kw(at.trim_start_matches(':')), v.typed());
                                        let _ = bd.commit();
                                    }
                                };
                                t.run(
                                    name,
                                    "assert",
                                    |s| unsafe {
                                        hold(&mut *s);
                                        let mut e = Err_::new();
                                        let mut out = vec![];
                                        if target < 2 {
                                            let p = f::store_in_progress_builder(s, e.p());
                                            out.push(show_err(e.take()));
                                            out.push(v.builder(p, ent, at, retract));
                                            let mut e = Err_::new();
                                            let r = f::in_progress_builder_commit(p, e.p());
                                            out.push(report(r, e.take()));
                                        } else {
                                            let p = if target == 3 { f::store_entity_builder_from_temp_id(s, cs("t").as_ptr(), e.p()) } else { f::store_entity_builder_from_entid(s, ent, e.p()) };
                                            out.push(show_err(e.take()));
                                            out.push(v.entity(p, at, retract));
                                            if commit {
                                                let mut e = Err_::new();
                                                let r = f::entity_builder_commit(p, e.p());
                                                out.push(report(r, e.take()));
                                            } else {
                                                let r = f::entity_builder_transact(p);
                                                out.push(report(r.tx_report, message(r.err.message)));
                                                let mut e = Err_::new();
                                                f::in_progress_commit(r.in_progress, e.p());
                                                out.push(show_err(e.take()));
                                            }
                                        }
                                        out
                                    },
                                    |s| {
                                        hold(s);
                                        let ip = s.begin_transaction().expect("begin");
                                        let mut out = vec!["ok".to_string()];
                                        if target < 2 {
                                            let mut bd = ip.builder();
                                            out.push(lib_assert(&mut bd, ent, at, *v, retract));
                                            out.push(lib_report(bd.commit()));
                                        } else {
                                            let mut eb = if target == 3 { ip.builder().describe_tempid("t") } else { ip.builder().describe(KnownEntid(ent)) };
                                            out.push(lib_entity(&mut eb, at, *v, retract));
                                            if commit {
                                                out.push(lib_report(eb.commit()));
                                            } else {
                                                let (ip, r) = eb.transact();
                                                out.push(lib_report(r));
                                                out.push(done(&ip.commit()));
                                            }
                                        }
                                        out
                                    },
                                );
                            },
                        );
                    }
                }
            }
        }
    }

    // Every sequence of calls.
    if on("calls") {
        for ops in calls(if ctx.thorough { 5 } else { 4 }) {
            c.case(
                || format!("calls|{}", ops.iter().map(|o| format!("{:?}", o)).collect::<Vec<_>>().join(",")),
                |name| {
                    ctx.count("cases", 1);
                    t.run(name, "calls", |s| unsafe { ffi_calls(s, &ops, &base) }, |s| lib_calls(s, &ops, &base));
                },
            );
        }
    }

    // Every query, executed in every way.
    if on("queries") {
        for q in queries(&base) {
            for how in [How::Scalar, How::Coll, How::Tuple, How::Rel] {
                c.case(
                    || format!("query|{} {:?}", q, how),
                    |name| {
                        ctx.count("cases", 1);
                        t.run(name, "query", |s| unsafe { ffi_query(s, &q, &[], how) }, |s| lib_query(s, &q, &[], how));
                    },
                );
            }
        }
        let vals = [
            (Str("x"), false), (Str(""), false), (Long(1), false), (Long(2), false), (Ref(a), false), (Ref(b), false), (Kw(":t/l"), false), (Kw(":t/l"), true), (Kw(":db/ident"), true), (Bool(true), false), (Bool(false), false),
            (Dbl(1.5), false), (Dbl(-0.0), false), (Dbl(0.1), false), (Long(4_294_967_297), false), (Ts(-1_499_999), false), (Ts(1_514_764_800_999_999), false), (Uuid([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]), false),
        ];
        let qs = [
            "[:find ?e ?a :in ?v :where [?e ?a ?v] :order ?e ?a]",
            "[:find [?e ...] :in ?v :where [?e :t/l ?v] :order ?e]",
            "[:find ?a ?x :in ?v :where [?v ?a ?x] :order ?a ?x]",
            "[:find ?x . :in ?v :where [?e :t/l 1] [(ground ?v) ?x]]",
            "[:find ?e . :in ?v ?w :where [?e :t/l ?w] [?e ?a ?v]]",
            "[:find ?e ?x :in ?v :where [?e ?v ?x] :order ?e ?x]",
        ];
        for q in qs {
            let how = if q.contains(" . ") { How::Scalar } else if q.contains("...") { How::Coll } else { How::Rel };
            for v in vals {
                c.case(
                    || format!("bind|{} {:?}{}", q, v.0, if v.1 { " as an entity" } else { "" }),
                    |name| {
                        ctx.count("cases", 1);
                        let mut binds = vec![("?v", v.0, v.1)];
                        if q.contains("?w") {
                            binds.push(("?w", Long(1), false));
                            binds.push(("?w", Long(2), false));
                        }
                        t.run(name, "bind", |s| unsafe { ffi_query(s, q, &binds, how) }, |s| lib_query(s, q, &binds, how));
                    },
                );
            }
        }
    }

    // Lookups, with and without caches.
    if on("lookups") {
        let mut attrs = ATTRS.to_vec();
        attrs.push(":t/nope");
        let ents = [a, b, base.attr, 1, 999_999];
        for (i, at) in attrs.iter().enumerate() {
            for dir in 0..4 {
                c.case(
                    || format!("lookups|{} {}", at, ["not cached", "cached forward", "cached reverse", "cached both ways"][dir]),
                    |name| {
                        ctx.count("cases", 1);
                        let others = [attrs[i], attrs[(i + 1) % attrs.len()]];
                        let q = format!("[:find ?e ?v :where [?e {} ?v] :order ?e ?v]", at);
                        t.run(
                            name,
                            "lookups",
                            |s| unsafe {
                                let mut out = vec![];
                                if dir > 0 {
                                    let mut e = Err_::new();
                                    let k = cs(at);
                                    match dir {
                                        1 => f::store_cache_attribute_forward(s, k.as_ptr(), e.p()),
                                        2 => f::store_cache_attribute_reverse(s, k.as_ptr(), e.p()),
                                        _ => f::store_cache_attribute_bi_directional(s, k.as_ptr(), e.p()),
                                    }
                                    out.push(show_err(e.take()));
                                    let id = (*s).conn().current_schema().get_entid(&kw(at.trim_start_matches(':')));
                                    if let Some(id) = id {
                                        let cache = (*s).conn().current_cache();
                                        use mentat_core::CachedAttributes;
                                        out.push(format!("{} {}", cache.is_attribute_cached_forward(id.into()), cache.is_attribute_cached_reverse(id.into())));
                                    }
                                }
                                for at in others {
                                    if at != ":t/nope" {
                                        out.push(format!("{}", f::store_entid_for_attribute(s, cs(at).as_ptr())));
                                    }
                                    for en in ents {
                                        let mut e = Err_::new();
                                        let v = f::store_value_for_attribute(s, en, cs(at).as_ptr(), e.p());
                                        out.push(show_err(e.take()));
                                        out.push(value(v));
                                    }
                                }
                                out.extend(ffi_query(s, &q, &[], How::Rel));
                                out
                            },
                            |s| {
                                let mut out = vec![];
                                if dir > 0 {
                                    let d = [CacheDirection::Forward, CacheDirection::Reverse, CacheDirection::Both];
                                    let r = s.cache(&kw(at.trim_start_matches(':')), d[dir - 1]);
                                    out.push(done(&r));
                                    if *at != ":t/nope" {
                                        out.push(format!("{} {}", r.is_ok() && dir != 2, r.is_ok() && dir != 1));
                                    }
                                }
                                for at in others {
                                    let k = kw(at.trim_start_matches(':'));
                                    if at != ":t/nope" {
                                        out.push(format!("{}", i64::from(s.conn().current_schema().get_entid(&k).unwrap())));
                                    }
                                    for en in ents {
                                        let r = s.lookup_value_for_attribute(en, &k);
                                        out.push(done(&r));
                                        out.push(r.ok().and_then(|v| v).map_or("null".into(), |v| plain(&v)));
                                    }
                                }
                                out.extend(lib_query(s, &q, &[], How::Rel));
                                out
                            },
                        );
                    },
                );
            }
        }
    }

    // Observers.
    if on("observers") {
        let ops = observer_ops();
        for seq in sequences(ops.len(), if ctx.thorough { 4 } else { 3 }) {
            c.case(
                || format!("observers|{}", seq.iter().map(|i| i.to_string()).collect::<Vec<_>>().join(",")),
                |name| {
                    ctx.count("cases", 1);
                    let seq: Vec<Ob> = seq.iter().map(|i| ops[*i]).collect();
                    t.run(name, "observers", |s| unsafe { ffi_observe(s, &seq) }, |s| lib_observe(s, &seq));
                },
            );
        }
    }
}
