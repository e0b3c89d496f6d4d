//! The checker's own representation of values, datoms and EDN text. It shares no code with the
//! implementation: it decodes SQLite rows itself and prints EDN itself.
use rusqlite::types::ValueRef;

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum V {
    Ref(i64),
    Bool(bool),
    /// Microseconds since the epoch.
    Inst(i64),
    Long(i64),
    /// Bits of the double (so that V is Eq/Ord/Hash); use `V::dbl`.
    Dbl(u64),
    Str(String),
    /// Without the leading colon: "ns/name".
    Kw(String),
    Uuid([u8; 16]),
    /// A (value, tag) pair that no reader should ever meet.
    Bad(String),
}

impl V {
    pub fn dbl(f: f64) -> V {
        V::Dbl(f.to_bits())
    }
    pub fn s(s: &str) -> V {
        V::Str(s.to_string())
    }
    pub fn kw(s: &str) -> V {
        V::Kw(s.to_string())
    }
    pub fn edn(&self) -> String {
        match self {
            V::Ref(e) => e.to_string(),
            V::Bool(b) => b.to_string(),
            V::Inst(us) => inst_text(*us),
            V::Long(l) => l.to_string(),
            V::Dbl(b) => dbl_text(f64::from_bits(*b)),
            V::Str(s) => str_text(s),
            V::Kw(k) => format!(":{}", k),
            V::Uuid(b) => format!("#uuid \"{}\"", uuid::Uuid::from_bytes(*b).to_hyphenated()),
            V::Bad(s) => format!("#bad {}", s),
        }
    }
    pub fn from_sql(v: ValueRef<'_>, tag: i64) -> V {
        match (tag, v) {
            (0, ValueRef::Integer(i)) => V::Ref(i),
            (1, ValueRef::Integer(0)) => V::Bool(false),
            (1, ValueRef::Integer(1)) => V::Bool(true),
            (4, ValueRef::Integer(i)) => V::Inst(i),
            (5, ValueRef::Integer(i)) => V::Long(i),
            (5, ValueRef::Real(f)) => V::Dbl(f.to_bits()),
            (10, ValueRef::Text(t)) => V::Str(String::from_utf8_lossy(t).into_owned()),
            (11, ValueRef::Blob(b)) if b.len() == 16 => {
                let mut a = [0u8; 16];
                a.copy_from_slice(b);
                V::Uuid(a)
            }
            (13, ValueRef::Text(t)) => {
                let s = String::from_utf8_lossy(t).into_owned();
                if s.starts_with(':') {
                    V::Kw(s[1..].to_string())
                } else {
                    V::Bad(format!("keyword {}", s))
                }
            }
            (t, v) => V::Bad(format!("tag {} {:?}", t, v)),
        }
    }
    pub fn from_typed(v: &core_traits::TypedValue) -> V {
        use core_traits::TypedValue as T;
        match v {
            T::Ref(e) => V::Ref(*e),
            T::Boolean(b) => V::Bool(*b),
            T::Long(l) => V::Long(*l),
            T::Double(f) => V::dbl(f.into_inner()),
            T::Instant(i) => V::Inst(i.timestamp() * 1_000_000 + i.timestamp_subsec_micros() as i64),
            T::String(s) => V::Str(s.to_string()),
            T::Keyword(k) => V::Kw(k.to_string()[1..].to_string()),
            T::Uuid(u) => V::Uuid(*u.as_bytes()),
        }
    }
    pub fn to_typed(&self) -> core_traits::TypedValue {
        use core_traits::TypedValue as T;
        match self {
            V::Ref(e) => T::Ref(*e),
            V::Bool(b) => T::Boolean(*b),
            V::Long(l) => T::Long(*l),
            V::Dbl(b) => T::Double(f64::from_bits(*b).into()),
            V::Inst(us) => {
                use chrono::TimeZone;
                T::Instant(chrono::Utc.timestamp(us.div_euclid(1_000_000), (us.rem_euclid(1_000_000) * 1000) as u32))
            }
            V::Str(s) => s.as_str().into(),
            V::Kw(k) => T::Keyword(kw(k).into()),
            V::Uuid(b) => T::Uuid(uuid::Uuid::from_bytes(*b)),
            V::Bad(_) => panic!("bad value"),
        }
    }
}

/// "ns/name" -> Keyword.
pub fn kw(s: &str) -> edn::Keyword {
    let s = s.trim_start_matches(':');
    match s.find('/') {
        Some(i) => edn::Keyword::namespaced(&s[..i], &s[i + 1..]),
        None => edn::Keyword::plain(s),
    }
}

pub fn inst_text(us: i64) -> String {
    use chrono::TimeZone;
    let t = chrono::Utc.timestamp(us.div_euclid(1_000_000), (us.rem_euclid(1_000_000) * 1000) as u32);
    format!("#inst \"{}\"", t.to_rfc3339_opts(chrono::SecondsFormat::Micros, true))
}

pub fn dbl_text(f: f64) -> String {
    if f.is_nan() {
        "#f NaN".into()
    } else if f.is_infinite() {
        if f > 0.0 { "#f +Infinity".into() } else { "#f -Infinity".into() }
    } else {
        let s = format!("{:?}", f);
        if s.contains('e') && !s.contains('.') {
            s.replace("e", ".0e")
        } else {
            s
        }
    }
}

pub fn str_text(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
