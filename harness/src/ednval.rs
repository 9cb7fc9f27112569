//! EDN values: a generator, a printer with arbitrary layout, and an independent strict reader.

use crate::engine::*;
use chrono::{DateTime, TimeZone, Utc};
use edn::{Keyword, NamespacedSymbol, PlainSymbol, Value};
use num::BigInt;
use ordered_float::OrderedFloat;
use std::collections::{BTreeMap, BTreeSet, LinkedList};


const INITIAL: &[u8] = b"abcxyzABZ*!_?$%&=<>";
const SUBSEQ: &[u8] = b"abcxyz019AZ+*!_?$%&=<>-";
pub const WORDS: &[&str] = &["nil", "true", "false", "NaN", "Infinity", "inst", "e", "N", "x", "r", "the", "pull", "a", "b", "_", "db", "find"];

fn chars(s: &mut Src, set: &[u8], lo: usize, hi: usize) -> String {
    let n = s.size(lo, hi);
    (0..n).map(|_| *s.pick(set) as char).collect()
}

/// A symbol name: initial+ subsequent*.
pub fn name(s: &mut Src, digits_first: bool) -> String {
    loop_name(s, digits_first)
}
fn loop_name(s: &mut Src, digits_first: bool) -> String {
    let mut n = match s.weighted(&[3, 2, 1]) {
        0 => {
            let mut n = chars(s, INITIAL, 1, 2);
            n.push_str(&chars(s, SUBSEQ, 0, 3));
            n
        }
        1 => {
            let mut n = s.pick(WORDS).to_string();
            n.push_str(&chars(s, SUBSEQ, 0, 2));
            n
        }
        _ => {
            let mut n = s.pick(WORDS).to_string();
            n.push_str(*s.pick(WORDS));
            n
        }
    };
    if digits_first && s.chance(1, 4) {
        n = format!("{}{}", s.below(10), n);
    }
    n
}
/// A namespace: initial subsequent* ("." subsequent+)*.
pub fn namespace(s: &mut Src, digits_first: bool) -> String {
    let mut n = loop_name(s, digits_first);
    for _ in 0..s.size(0, 2) {
        n.push('.');
        n.push_str(&chars(s, SUBSEQ, 1, 3));
    }
    n
}

pub fn text(s: &mut Src) -> String {
    let n = s.size(0, 6);
    let mut o = String::new();
    for _ in 0..n {
        match s.weighted(&[4, 3, 2, 1]) {
            0 => o.push(*s.pick(b"abc XYZ09") as char),
            1 => o.push_str(s.pick::<&str>(&["\\", "\"", "\n", "\t", "\r", "\\n", "\\\"", ";", "[", "}", "#", ",", ":a", "%", "'", "\\t", "\\\\"])),
            2 => o.push_str(s.pick::<&str>(&["é", "ß", "日本", "𝒳", "\u{301}", "\u{feff}", "\u{0}", "\u{1f}", "\u{7f}", "\u{200d}", "İ"])),
            _ => o.push(char::from_u32(s.below(0x11000) as u32).unwrap_or('?')),
        }
    }
    o
}

pub fn long(s: &mut Src) -> i64 {
    match s.weighted(&[4, 2, 2, 1]) {
        0 => s.range(-3, 12),
        1 => *s.pick(&[i64::max_value(), i64::min_value(), i64::max_value() - 1, i64::min_value() + 1, 1 << 31, (1 << 31) - 1, -(1 << 31), 1 << 32, 1 << 53, (1 << 53) + 1, -(1 << 53) - 1, 1 << 62, 65536, 268435456]),
        2 => {
            let b = s.below(63);
            let v = s.u64() as i64;
            v >> b
        }
        _ => s.u64() as i64,
    }
}
pub fn double(s: &mut Src) -> f64 {
    match s.weighted(&[4, 3, 2, 2]) {
        0 => s.range(-20, 20) as f64 / 4.0,
        1 => *s.pick(&[0.0, -0.0, 1e300, -1e300, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e21, 1e16, 1e15, 1.5e-7, 9007199254740993.0, 0.1, 1e-5, 123456789.125, 9.223372036854775807e18, -9.223372036854775808e18]),
        2 => long(s) as f64,
        _ => {
            let f = f64::from_bits(s.u64());
            if f.is_nan() { 1.0 } else { f }
        }
    }
}
/// Microseconds in the years 0000 to 9999.
pub fn instant_micros(s: &mut Src) -> i64 {
    let lo = -62_167_219_200_000_000i64;
    let hi = 253_402_300_799_999_999i64;
    match s.weighted(&[3, 3, 1, 2]) {
        0 => 1_500_000_000_000_000 + s.range(0, 50) * 1_000_000,
        1 => *s.pick(&[0, 1, -1, -999_999, -1_000_000, -1_000_001, 999, 1000, 1001, 999_999, 1_000_000, 4_102_444_800_000_000, -2_208_988_800_000_001]),
        2 => *s.pick(&[lo, hi, lo + 1, hi - 1]),
        _ => lo + (s.u64() % ((hi - lo) as u64)) as i64,
    }
}
pub fn inst_any(s: &mut Src) -> DateTime<Utc> {
    let m = instant_micros(s);
    let nanos = if s.chance(1, 5) { s.below(1000) as u32 } else { 0 };
    Utc.timestamp(m.div_euclid(1_000_000), m.rem_euclid(1_000_000) as u32 * 1000 + nanos)
}
pub fn uuid(s: &mut Src) -> uuid::Uuid {
    let mut b = [0u8; 16];
    match s.below(4) {
        0 => {}
        1 => b = [0xff; 16],
        _ => {
            b[..8].copy_from_slice(&s.u64().to_be_bytes());
            b[8..].copy_from_slice(&s.u64().to_be_bytes());
        }
    }
    uuid::Uuid::from_bytes(b)
}
pub fn bigint(s: &mut Src) -> BigInt {
    let mut b = BigInt::from(long(s));
    for _ in 0..s.size(0, 3) {
        b = b * BigInt::from(s.u64() | 1) + BigInt::from(s.below(7));
    }
    b
}

pub fn atom(s: &mut Src) -> Value {
    match s.below(12) {
        0 => Value::Nil,
        1 => Value::Boolean(s.bool()),
        2 | 3 => Value::Integer(long(s)),
        4 => Value::Float(OrderedFloat(match s.below(8) {
            0 => std::f64::NAN,
            1 => std::f64::INFINITY,
            2 => std::f64::NEG_INFINITY,
            _ => double(s),
        })),
        5 => Value::Text(text(s)),
        6 => Value::BigInteger(bigint(s)),
        7 => Value::Instant(inst_any(s)),
        8 => Value::Uuid(uuid(s)),
        9 => {
            let n = match s.below(12) {
                0 => "...".to_string(),
                1 => ".".to_string(),
                _ => name(s, false),
            };
            if n == "nil" || n == "true" || n == "false" {
                Value::PlainSymbol(PlainSymbol::plain(format!("{}?", n)))
            } else {
                Value::PlainSymbol(PlainSymbol::plain(n))
            }
        }
        10 => Value::NamespacedSymbol(NamespacedSymbol::namespaced(namespace(s, false), name(s, true))),
        _ => Value::Keyword(if s.chance(1, 3) { Keyword::plain(name(s, true)) } else { Keyword::namespaced(namespace(s, true), name(s, true)) }),
    }
}

pub fn value(s: &mut Src, depth: usize) -> Value {
    if depth == 0 || s.chance(1, 3) {
        return atom(s);
    }
    let n = s.size(0, 4);
    match s.below(4) {
        0 => Value::Vector((0..n).map(|_| value(s, depth - 1)).collect()),
        1 => Value::List((0..n).map(|_| value(s, depth - 1)).collect::<LinkedList<_>>()),
        2 => Value::Set((0..n).map(|_| value(s, depth - 1)).collect::<BTreeSet<_>>()),
        _ => Value::Map((0..n).map(|_| (value(s, depth - 1), value(s, depth - 1))).collect::<BTreeMap<_, _>>()),
    }
}

/// A value close to `v`: the same, or with one small change.
pub fn near(s: &mut Src, v: &Value) -> Value {
    match v {
        Value::Vector(xs) if !xs.is_empty() && s.bool() => {
            let mut xs = xs.clone();
            let i = s.idx(xs.len());
            xs[i] = near(s, &xs[i].clone());
            Value::Vector(xs)
        }
        Value::Set(xs) if !xs.is_empty() && s.bool() => {
            let mut l: Vec<_> = xs.iter().cloned().collect();
            let i = s.idx(l.len());
            l[i] = near(s, &l[i].clone());
            Value::Set(l.into_iter().collect())
        }
        Value::Map(xs) if !xs.is_empty() && s.bool() => {
            let mut l: Vec<_> = xs.clone().into_iter().collect();
            let i = s.idx(l.len());
            l[i].1 = near(s, &l[i].1.clone());
            Value::Map(l.into_iter().collect())
        }
        Value::Integer(i) => match s.below(4) {
            0 => Value::BigInteger(BigInt::from(*i)),
            1 => Value::Float(OrderedFloat(*i as f64)),
            2 => Value::Integer(i.wrapping_add(1)),
            _ => v.clone(),
        },
        Value::Keyword(k) => match s.below(4) {
            0 => Value::Keyword(Keyword::plain(k.name())),
            1 => Value::Keyword(Keyword::namespaced("a", k.name())),
            2 => Value::PlainSymbol(PlainSymbol::plain(k.name())),
            _ => v.clone(),
        },
        Value::Text(t) => match s.below(3) {
            0 => Value::Text(format!("{}a", t)),
            _ => v.clone(),
        },
        Value::Vector(xs) => match s.below(3) {
            0 => Value::List(xs.iter().cloned().collect()),
            1 => Value::Set(xs.iter().cloned().collect()),
            _ => {
                let mut ys = xs.clone();
                ys.push(Value::Nil);
                Value::Vector(ys)
            }
        },
        _ => {
            if s.bool() { v.clone() } else { atom(s) }
        }
    }
}

/// The tokens of a value; a token never needs a separator inside.
pub fn tokens(v: &Value, out: &mut Vec<String>) {
    match v {
        Value::Nil => out.push("nil".into()),
        Value::Boolean(b) => out.push(b.to_string()),
        Value::Integer(i) => out.push(i.to_string()),
        Value::BigInteger(b) => out.push(format!("{}N", b)),
        Value::Float(f) => {
            let f = f.into_inner();
            out.push(if f.is_nan() {
                "#f NaN".into()
            } else if f.is_infinite() {
                if f > 0.0 { "#f +Infinity".into() } else { "#f -Infinity".into() }
            } else {
                format!("{:?}", f)
            })
        }
        Value::Instant(i) => out.push(format!("#inst \"{}\"", i.format("%Y-%m-%dT%H:%M:%S%.9fZ"))),
        Value::Text(t) => out.push(crate::vals::edn_str(t)),
        Value::Uuid(u) => out.push(format!("#uuid \"{}\"", u.to_hyphenated())),
        Value::PlainSymbol(p) => out.push(p.to_string()),
        Value::NamespacedSymbol(n) => out.push(format!("{}/{}", n.namespace(), n.name())),
        Value::Keyword(k) => out.push(match k.namespace() {
            Some(ns) => format!(":{}/{}", ns, k.name()),
            None => format!(":{}", k.name()),
        }),
        Value::Vector(xs) => {
            out.push("[".into());
            xs.iter().for_each(|x| tokens(x, out));
            out.push("]".into());
        }
        Value::List(xs) => {
            out.push("(".into());
            xs.iter().for_each(|x| tokens(x, out));
            out.push(")".into());
        }
        Value::Set(xs) => {
            out.push("#{".into());
            xs.iter().for_each(|x| tokens(x, out));
            out.push("}".into());
        }
        Value::Map(xs) => {
            out.push("{".into());
            xs.iter().for_each(|(k, x)| {
                tokens(k, out);
                tokens(x, out);
            });
            out.push("}".into());
        }
    }
}
fn bracket(t: &str) -> bool {
    ["[", "]", "(", ")", "{", "}", "#{"].contains(&t)
}
pub fn layout(s: &mut Src, toks: &[String]) -> String {
    const SEP: &[&str] = &[" ", ",", "\n", "\t", "\r\n", "  ", ", ", "; note ] \" [\n", ";\n", ",;;#{\r", " ; é\n "];
    let mut o = String::new();
    if s.chance(1, 3) {
        o.push_str(*s.pick(SEP));
    }
    for (i, t) in toks.iter().enumerate() {
        if i > 0 {
            let tight = (bracket(t) && t != "#{") || bracket(&toks[i - 1]);
            if !(tight && s.chance(2, 3)) {
                o.push_str(*s.pick(SEP));
            }
        }
        o.push_str(t);
    }
    if s.chance(1, 3) {
        o.push_str(*s.pick(SEP));
        if s.chance(1, 4) {
            o.push_str("; the end");
        }
    }
    o
}
pub fn plain(v: &Value) -> String {
    let mut t = vec![];
    tokens(v, &mut t);
    t.join(" ")
}

// An independent reader.

#[derive(Debug, PartialEq)]
pub enum Rd {
    /// Not EDN, whatever the reader's leniency about adjacent tokens.
    Reject(String),
    /// Outside what this reader judges.
    Unknown(String),
}

pub struct Reader<'a> {
    c: Vec<char>,
    i: usize,
    src: &'a str,
}

fn is_initial(c: char) -> bool {
    c.is_ascii_alphanumeric() || "*!_?$%&=<>".contains(c)
}
fn is_subseq(c: char) -> bool {
    is_initial(c) || c == '+' || c == '-'
}
fn ok_name(t: &str) -> bool {
    let mut it = t.chars();
    match it.next() {
        Some(c) => is_initial(c) && it.all(is_subseq),
        None => false,
    }
}
fn ok_ns(t: &str) -> bool {
    let mut parts = t.split('.');
    ok_name(parts.next().unwrap()) && parts.all(|p| !p.is_empty() && p.chars().all(is_subseq))
}

impl<'a> Reader<'a> {
    pub fn read(src: &'a str) -> Result<Value, Rd> {
        let mut r = Reader { c: src.chars().collect(), i: 0, src };
        let v = r.value(0)?;
        r.ws();
        if r.i < r.c.len() {
            // There may be an unknown atom ahead, which cannot matter: a second value is an error.
            return Err(Rd::Reject("text after the value".into()));
        }
        Ok(v)
    }
    fn ws(&mut self) {
        while self.i < self.c.len() {
            match self.c[self.i] {
                ' ' | '\r' | '\n' | '\t' | ',' => self.i += 1,
                ';' => {
                    while self.i < self.c.len() && self.c[self.i] != '\n' && self.c[self.i] != '\r' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
    }
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).cloned()
    }
    fn seq(&mut self, close: char, depth: usize) -> Result<Vec<Value>, Rd> {
        let mut v = vec![];
        let mut unknown = None;
        loop {
            self.ws();
            match self.peek() {
                None => return Err(unknown.unwrap_or(Rd::Reject("unclosed".into()))),
                Some(c) if c == close => {
                    self.i += 1;
                    return match unknown {
                        None => Ok(v),
                        Some(u) => Err(u),
                    };
                }
                Some(')') | Some(']') | Some('}') => return Err(unknown.unwrap_or(Rd::Reject("mismatched close".into()))),
                _ => match self.value(depth + 1) {
                    Ok(x) => v.push(x),
                    Err(Rd::Unknown(u)) => unknown = Some(Rd::Unknown(u)),
                    Err(e) => return Err(unknown.unwrap_or(e)),
                },
            }
        }
    }
    fn string(&mut self) -> Result<String, Rd> {
        self.i += 1;
        let mut o = String::new();
        loop {
            match self.peek() {
                None => return Err(Rd::Reject("unclosed string".into())),
                Some('"') => {
                    self.i += 1;
                    return Ok(o);
                }
                Some('\\') => {
                    self.i += 1;
                    match self.peek() {
                        Some('n') => o.push('\n'),
                        Some('t') => o.push('\t'),
                        Some('r') => o.push('\r'),
                        Some('\\') => o.push('\\'),
                        Some('"') => o.push('"'),
                        None => return Err(Rd::Reject("unclosed string".into())),
                        // EDN has more escapes than mentat says it reads.
                        Some(_) => return Err(Rd::Unknown("escape".into())),
                    }
                    self.i += 1;
                }
                Some(c) => {
                    o.push(c);
                    self.i += 1;
                }
            }
        }
    }
    fn word(&mut self) -> String {
        let st = self.i;
        while let Some(c) = self.peek() {
            if " \r\n\t,;()[]{}\"".contains(c) {
                break;
            }
            self.i += 1;
        }
        self.c[st..self.i].iter().collect()
    }
    fn value(&mut self, depth: usize) -> Result<Value, Rd> {
        if depth > 300 {
            return Err(Rd::Unknown(format!("nesting in {}", self.src.len())));
        }
        self.ws();
        let c = match self.peek() {
            None => return Err(Rd::Reject("nothing".into())),
            Some(c) => c,
        };
        match c {
            '[' => {
                self.i += 1;
                Ok(Value::Vector(self.seq(']', depth)?))
            }
            '(' => {
                self.i += 1;
                Ok(Value::List(self.seq(')', depth)?.into_iter().collect()))
            }
            '{' => {
                self.i += 1;
                let v = self.seq('}', depth)?;
                if v.len() % 2 == 1 {
                    return Err(Rd::Reject("odd map".into()));
                }
                let n = v.len() / 2;
                let m: BTreeMap<Value, Value> = v.chunks(2).map(|p| (p[0].clone(), p[1].clone())).collect();
                if m.len() < n {
                    return Err(Rd::Unknown("repeated keys".into()));
                }
                Ok(Value::Map(m))
            }
            ')' | ']' | '}' => Err(Rd::Reject("close".into())),
            '"' => Ok(Value::Text(self.string()?)),
            '#' => {
                if self.c.get(self.i + 1) == Some(&'{') {
                    self.i += 2;
                    let v = self.seq('}', depth)?;
                    let n = v.len();
                    let set: BTreeSet<Value> = v.into_iter().collect();
                    if set.len() < n {
                        return Err(Rd::Unknown("repeated elements".into()));
                    }
                    return Ok(Value::Set(set));
                }
                let tag = self.word();
                let st = self.i;
                while let Some(c) = self.peek() {
                    if !" \r\n\t,".contains(c) {
                        break;
                    }
                    self.i += 1;
                }
                if st == self.i {
                    return Err(Rd::Unknown("tag without space".into()));
                }
                let quoted = self.peek() == Some('"');
                let arg = if quoted { self.string()? } else { self.word() };
                match (tag.as_str(), quoted) {
                    ("#f", false) => match arg.as_str() {
                        "NaN" => Ok(Value::Float(OrderedFloat(std::f64::NAN))),
                        "+Infinity" => Ok(Value::Float(OrderedFloat(std::f64::INFINITY))),
                        "-Infinity" => Ok(Value::Float(OrderedFloat(std::f64::NEG_INFINITY))),
                        _ => Err(Rd::Unknown("#f".into())),
                    },
                    ("#uuid", true) => {
                        let shape: Vec<usize> = arg.split('-').map(|p| p.len()).collect();
                        if shape == [8, 4, 4, 4, 12] && arg.chars().all(|c| c == '-' || c.is_ascii_digit() || ('a'..='f').contains(&c)) {
                            Ok(Value::Uuid(uuid::Uuid::parse_str(&arg).map_err(|_| Rd::Unknown("uuid".into()))?))
                        } else {
                            Err(Rd::Unknown("uuid".into()))
                        }
                    }
                    ("#inst", true) => {
                        let b: Vec<char> = arg.chars().collect();
                        let shape = b.len() >= 20
                            && b.iter().enumerate().take(19).all(|(i, c)| match i {
                                4 | 7 => *c == '-',
                                10 => *c == 'T',
                                13 | 16 => *c == ':',
                                _ => c.is_ascii_digit(),
                            })
                            && arg.ends_with('Z')
                            && (b.len() == 20 || (b[19] == '.' && b.len() >= 22 && b[20..b.len() - 1].iter().all(|c| c.is_ascii_digit())));
                        if !shape {
                            return Err(Rd::Unknown("inst".into()));
                        }
                        let n = |a: usize, z: usize| b[a..z].iter().collect::<String>().parse::<u32>().unwrap();
                        let (y, mo, d, h, mi, se) = (n(0, 4) as i32, n(5, 7), n(8, 10), n(11, 13), n(14, 16), n(17, 19));
                        if se >= 60 || b.len() > 30 {
                            return Err(Rd::Unknown("inst detail".into()));
                        }
                        let mut frac: String = if b.len() == 20 { String::new() } else { b[20..b.len() - 1].iter().collect() };
                        while frac.len() < 9 {
                            frac.push('0');
                        }
                        let ns: u32 = frac[..9].parse().unwrap();
                        let date = chrono::NaiveDate::from_ymd_opt(y, mo, d).and_then(|d| d.and_hms_nano_opt(h, mi, se, ns));
                        match date {
                            Some(t) => Ok(Value::Instant(DateTime::<Utc>::from_utc(t, Utc))),
                            None => Err(Rd::Reject("no such date".into())),
                        }
                    }
                    ("#instmicros", false) | ("#instmillis", false) if !arg.is_empty() && arg.chars().all(|c| c.is_ascii_digit()) => {
                        let n: BigInt = arg.parse().unwrap();
                        let per: i64 = if tag == "#instmicros" { 1_000_000 } else { 1_000 };
                        let secs: BigInt = &n / BigInt::from(per);
                        let sub: BigInt = &n % BigInt::from(per);
                        use num::ToPrimitive;
                        let r = secs.to_i64().and_then(|x| Utc.timestamp_opt(x, sub.to_u32().unwrap() * (1_000_000_000 / per) as u32).single());
                        match r {
                            Some(t) => Ok(Value::Instant(t)),
                            None => Err(Rd::Reject("instant out of range".into())),
                        }
                    }
                    _ => Err(Rd::Unknown("tag".into())),
                }
            }
            _ => {
                let w = self.word();
                atom_of(&w)
            }
        }
    }
}

pub fn atom_of(w: &str) -> Result<Value, Rd> {
    match w {
        "nil" => return Ok(Value::Nil),
        "true" => return Ok(Value::Boolean(true)),
        "false" => return Ok(Value::Boolean(false)),
        "..." | "." => return Ok(Value::PlainSymbol(PlainSymbol::plain(w))),
        _ => {}
    }
    let unknown = || Err(Rd::Unknown(w.to_string()));
    let first = w.chars().next().unwrap();
    if first == ':' {
        let b = &w[1..];
        return match b.find('/') {
            None if ok_name(b) => Ok(Value::Keyword(Keyword::plain(b))),
            Some(i) if ok_ns(&b[..i]) && ok_name(&b[i + 1..]) => Ok(Value::Keyword(Keyword::namespaced(&b[..i], &b[i + 1..]))),
            _ => unknown(),
        };
    }
    let signed = first == '+' || first == '-';
    let body = if signed { &w[1..] } else { w };
    if body.starts_with(|c: char| c.is_ascii_digit()) {
        let digits = |t: &str| !t.is_empty() && t.chars().all(|c| c.is_ascii_digit());
        let int = |r: Option<i64>| r.map(Value::Integer).ok_or_else(|| Rd::Reject(format!("{} is out of range", w)));
        if digits(body) {
            if !signed && body.len() > 1 && body.starts_with('0') && body[1..].chars().all(|c| ('0'..='7').contains(&c)) {
                return int(i64::from_str_radix(&body[1..], 8).ok());
            }
            if body.len() > 1 && body.starts_with('0') {
                return unknown();
            }
            return int(w.parse::<i64>().ok());
        }
        if body.ends_with('N') && digits(&body[..body.len() - 1]) {
            let t = &w[..w.len() - 1];
            return Ok(Value::BigInteger(t.trim_start_matches('+').parse().unwrap()));
        }
        if !signed && body.starts_with("0x") && body.len() > 2 && body[2..].chars().all(|c| c.is_ascii_hexdigit()) {
            return int(i64::from_str_radix(&body[2..], 16).ok());
        }
        if let (false, Some(i)) = (signed, body.find('r')) {
            if digits(&body[..i]) && i <= 2 && !body.starts_with('0') && body.len() > i + 1 && body[i + 1..].chars().all(|c| c.is_ascii_alphanumeric()) {
                let base: u32 = body[..i].parse().unwrap();
                if (2..=36).contains(&base) {
                    return int(i64::from_str_radix(&body[i + 1..], base).ok());
                }
            }
            return unknown();
        }
        // digits [. digits] [e [sign] digits]
        let (m, e) = match body.find(|c| c == 'e' || c == 'E') {
            Some(i) => (&body[..i], Some(&body[i + 1..])),
            None => (body, None),
        };
        let mok = match m.find('.') {
            Some(i) => digits(&m[..i]) && digits(&m[i + 1..]),
            None => digits(m),
        };
        let eok = e.map(|e| digits(e.trim_start_matches(|c| c == '+' || c == '-')) && e.chars().filter(|c| "+-".contains(*c)).count() <= 1).unwrap_or(true);
        let b = body.as_bytes();
        if mok && eok && !(b[0] == b'0' && b.len() > 1 && b[1].is_ascii_digit()) {
            let f: f64 = w.parse().unwrap();
            return if f.is_infinite() { unknown() } else { Ok(Value::Float(OrderedFloat(f))) };
        }
        return unknown();
    }
    match w.find('/') {
        None if ok_name(w) => Ok(Value::PlainSymbol(PlainSymbol::plain(w))),
        Some(i) if ok_ns(&w[..i]) && ok_name(&w[i + 1..]) => Ok(Value::NamespacedSymbol(NamespacedSymbol::namespaced(&w[..i], &w[i + 1..]))),
        _ => unknown(),
    }
}
