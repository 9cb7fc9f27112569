//! The harness's own value type, independent of mentat's.

use chrono::{DateTime, TimeZone, Utc};
use mentat::TypedValue;
use std::fmt;

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Ref(i64),
    Bool(bool),
    Inst(i64),
    Long(i64),
    Dbl(D),
    Str(String),
    Uuid([u8; 16]),
    Kw(String),
}

/// A double ordered by `total_cmp` after folding -0.0 into 0.0 (SQLite stores no negative zero
/// distinguishable by comparison, and the two are equal numbers).
#[derive(Clone, Copy, Debug)]
pub struct D(pub f64);
impl D {
    fn norm(self) -> f64 {
        if self.0 == 0.0 { 0.0 } else { self.0 }
    }
}
impl PartialEq for D {
    fn eq(&self, o: &D) -> bool {
        self.norm().to_bits() == o.norm().to_bits()
    }
}
impl Eq for D {}
impl PartialOrd for D {
    fn partial_cmp(&self, o: &D) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for D {
    fn cmp(&self, o: &D) -> std::cmp::Ordering {
        self.norm().total_cmp(&o.norm())
    }
}
impl std::hash::Hash for D {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.norm().to_bits().hash(h)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub enum Vt {
    Ref,
    Bool,
    Inst,
    Long,
    Dbl,
    Str,
    Kw,
    Uuid,
}
pub const ALL_VT: [Vt; 8] = [Vt::Long, Vt::Str, Vt::Ref, Vt::Bool, Vt::Dbl, Vt::Kw, Vt::Inst, Vt::Uuid];

impl Vt {
    pub fn ident(self) -> &'static str {
        match self {
            Vt::Ref => ":db.type/ref",
            Vt::Bool => ":db.type/boolean",
            Vt::Inst => ":db.type/instant",
            Vt::Long => ":db.type/long",
            Vt::Dbl => ":db.type/double",
            Vt::Str => ":db.type/string",
            Vt::Kw => ":db.type/keyword",
            Vt::Uuid => ":db.type/uuid",
        }
    }
    /// The value type tag in SQL.
    pub fn tag(self) -> i32 {
        match self {
            Vt::Ref => 0,
            Vt::Bool => 1,
            Vt::Inst => 4,
            Vt::Long | Vt::Dbl => 5,
            Vt::Str => 10,
            Vt::Uuid => 11,
            Vt::Kw => 13,
        }
    }
    pub fn mentat(self) -> mentat::ValueType {
        use mentat::ValueType as T;
        match self {
            Vt::Ref => T::Ref,
            Vt::Bool => T::Boolean,
            Vt::Inst => T::Instant,
            Vt::Long => T::Long,
            Vt::Dbl => T::Double,
            Vt::Str => T::String,
            Vt::Kw => T::Keyword,
            Vt::Uuid => T::Uuid,
        }
    }
}

impl V {
    pub fn vt(&self) -> Vt {
        match self {
            V::Ref(_) => Vt::Ref,
            V::Bool(_) => Vt::Bool,
            V::Inst(_) => Vt::Inst,
            V::Long(_) => Vt::Long,
            V::Dbl(_) => Vt::Dbl,
            V::Str(_) => Vt::Str,
            V::Uuid(_) => Vt::Uuid,
            V::Kw(_) => Vt::Kw,
        }
    }
    pub fn s(x: &str) -> V {
        V::Str(x.to_string())
    }
    pub fn kw(x: &str) -> V {
        V::Kw(x.to_string())
    }
    pub fn of(tv: &TypedValue) -> V {
        match tv {
            TypedValue::Ref(e) => V::Ref(*e),
            TypedValue::Boolean(b) => V::Bool(*b),
            TypedValue::Long(l) => V::Long(*l),
            TypedValue::Double(d) => V::Dbl(D(d.into_inner())),
            TypedValue::Instant(i) => V::Inst(micros(i)),
            TypedValue::String(s) => V::Str((**s).clone()),
            TypedValue::Keyword(k) => V::Kw(k.to_string()),
            TypedValue::Uuid(u) => V::Uuid(*u.as_bytes()),
        }
    }
    pub fn typed(&self) -> TypedValue {
        match self {
            V::Ref(e) => TypedValue::Ref(*e),
            V::Bool(b) => TypedValue::Boolean(*b),
            V::Long(l) => TypedValue::Long(*l),
            V::Dbl(d) => TypedValue::Double(ordered_float::OrderedFloat(d.0)),
            V::Inst(i) => TypedValue::Instant(inst(*i)),
            V::Str(s) => TypedValue::String(s.clone().into()),
            V::Kw(k) => TypedValue::Keyword(keyword(k).into()),
            V::Uuid(u) => TypedValue::Uuid(uuid::Uuid::from_bytes(*u)),
        }
    }
    /// EDN text of this value, as accepted in value position for an attribute of this type.
    pub fn edn(&self) -> String {
        match self {
            V::Ref(e) => e.to_string(),
            V::Bool(b) => b.to_string(),
            V::Long(l) => l.to_string(),
            V::Dbl(d) => {
                let d = d.0;
                if d.is_nan() {
                    "#f NaN".to_string()
                } else if d.is_infinite() {
                    if d > 0.0 { "#f +Infinity".into() } else { "#f -Infinity".into() }
                } else {
                    // `{:?}` is the shortest text that reads back as the same double, with a point
                    // or an exponent.
                    format!("{:?}", d)
                }
            }
            V::Inst(i) => format!("#inst \"{}\"", inst(*i).format("%Y-%m-%dT%H:%M:%S%.6fZ")),
            V::Str(s) => edn_str(s),
            V::Kw(k) => k.clone(),
            V::Uuid(u) => format!("#uuid \"{}\"", uuid::Uuid::from_bytes(*u).to_hyphenated()),
        }
    }
}

pub fn edn_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        if c == '"' || c == '\\' {
            o.push('\\');
        }
        o.push(c);
    }
    o.push('"');
    o
}

pub fn micros(i: &DateTime<Utc>) -> i64 {
    i.timestamp() * 1_000_000 + (i.timestamp_subsec_micros() as i64)
}
pub fn inst(m: i64) -> DateTime<Utc> {
    Utc.timestamp(m.div_euclid(1_000_000), (m.rem_euclid(1_000_000) * 1000) as u32)
}

/// Parse ":ns/name" or ":name" into a mentat keyword without going through mentat's parser.
pub fn keyword(k: &str) -> mentat::Keyword {
    let body = &k[1..];
    match body.find('/') {
        Some(i) => mentat::Keyword::namespaced(&body[..i], &body[i + 1..]),
        None => mentat::Keyword::plain(body),
    }
}

impl fmt::Display for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            V::Ref(e) => write!(f, "→{}", e),
            V::Dbl(d) if d.0.is_nan() || d.0.is_infinite() => write!(f, "{:?}", d.0),
            v => write!(f, "{}", v.edn()),
        }
    }
}
impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}

/// A value as read from SQL, decoded without mentat.
pub fn from_sql(v: rusqlite::types::Value, tag: i32) -> Result<V, String> {
    use rusqlite::types::Value as S;
    Ok(match (tag, v) {
        (0, S::Integer(i)) => V::Ref(i),
        (1, S::Integer(i)) if i == 0 || i == 1 => V::Bool(i == 1),
        (4, S::Integer(i)) => V::Inst(i),
        (5, S::Integer(i)) => V::Long(i),
        (5, S::Real(d)) => V::Dbl(D(d)),
        (10, S::Text(s)) => V::Str(s),
        (11, S::Blob(b)) if b.len() == 16 => {
            let mut u = [0u8; 16];
            u.copy_from_slice(&b);
            V::Uuid(u)
        }
        (13, S::Text(s)) => V::Kw(s),
        (t, v) => return Err(format!("undecodable stored value {:?} with tag {}", v, t)),
    })
}
