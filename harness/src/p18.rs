//! P18: parsers on arbitrary text.

use crate::check;
use crate::ednval::*;
use crate::engine::*;
use edn::Value;
use std::time::{Duration, Instant};

pub static PROP: Prop = Prop {
    id: "P18",
    rule: "Texts of up to a few hundred characters from five generators: token soup with any or no separators; printed EDN values; transactions and queries put together from every grammar form; any of these with up to six characters or slices deleted, inserted, duplicated or replaced; bracket and clause nesting up to 60 deep; number, instant and uuid literals around and beyond their ranges. Every text goes through the EDN value, entities and query parsers and the query-string front end: each must return within ten seconds without a panic. An independent strict reader classifies the text: if it is EDN the value parser must accept it with that value; if it is malformed or holds an out-of-range literal it must be rejected. A text that is EDN and its re-spaced canonical printing must be accepted as a transaction or query alike, with the same meaning. Non-trivial: at least four characters and judged by the strict reader, or accepted by the transaction or query parser.",
    quick_cases: 1500000,
    thorough_cases: 60000000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["the strict reader does not judge adjacent tokens without separators, which the grammar splits, nor doubles beyond the range, which become infinite"],
};

const NUMS: &[&str] = &[
    "0", "-0", "+5", "007", "08", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "18446744073709551616",
    "0x7FFFFFFFFFFFFFFF", "0x8000000000000000", "0xfff", "0xFFFFFFFFFFFFFFFFFF", "0777777777777777777777", "01777777777777777777777", "02000000000000000000000000", "2r101", "2r102", "16rFF", "36rZZ",
    "36rZZZZZZZZZZZZZZZZ", "37rA", "1r0", "10r99999999999999999999", "12345678901234567890N", "-5N", "1.5", "1e3", "1E-3", "1.", "1.e5", "1e", "1e999", "-1e999", "1e400000000000", "0.1e+5",
    "#instmicros 0", "#instmicros 1500000000000000", "#instmicros 9223372036854775807", "#instmicros 9223372036854775808", "#instmillis 1500000000123", "#instmillis 9223372036854775807",
    "#instmillis 99999999999999999999999", "#inst \"2017-01-01T00:00:00Z\"", "#inst \"2017-02-30T00:00:00Z\"", "#inst \"0000-01-01T00:00:00.000001Z\"", "#inst \"9999-12-31T23:59:59.999999999Z\"",
    "#inst \"2016-12-31T23:59:60Z\"", "#inst \"2017-01-01T29:00:00+05:30\"", "#inst \"2017-01-01T00:00:00-08:00\"", "#inst \"2017-13-01T00:00:00Z\"", "#inst \"2017-01-01T00:00:69Z\"",
    "#uuid \"00000000-0000-0000-0000-000000000000\"", "#uuid \"550e8400-e29b-41d4-a716-44665544000\"", "#uuid \"550E8400-e29b-41d4-a716-446655440000\"", "#f NaN", "#f +Infinity", "#f -Infinity", "#f Infinity",
];
const TOKS: &[&str] = &[
    "[", "]", "(", ")", "{", "}", "#{", "\"", "\\", ";", ",", " ", "\n", "#", ":", "/", ".", "...", "_", "?x", "?y", "$", "%r", ":a/b", ":a/_b", ":a/_", ":a/__", ":_", "_", ":a.b/c", ":db/add", ":db/retract", ":db/id", ":db/ident",
    "\"t\"", "\"a\\\"b\"", "\"\\n\"", "\"\\q\"", "lookup-ref", "transaction-tx", ":find", ":where", ":in", ":with", ":order", ":limit", "asc", "desc", "not", "not-join", "or", "or-join", "and", "the", "pull", "*", ":as", "count", "type",
    "ground", "fulltext", "tx-ids", "tx-data", "<", "!=", "nil", "true", "false", "nilx", "é", "\u{0}", "0", "1", "-1", "#inst", "#uuid", "#f", "#instmicros", "'", "^", "~", "@", "|",
];

fn soup(s: &mut Src) -> String {
    let n = s.size(1, 14);
    let mut o = String::new();
    for _ in 0..n {
        if s.chance(1, 5) {
            o.push_str(*s.pick(NUMS));
        } else {
            o.push_str(*s.pick(TOKS));
        }
        if s.chance(2, 3) {
            o.push(' ');
        }
    }
    o
}

fn num(s: &mut Src) -> String {
    match s.below(4) {
        0 => s.pick(NUMS).to_string(),
        1 => {
            // A long run of digits in some base.
            let base = *s.pick(&[2u64, 8, 10, 16, 36]);
            let n = s.size(1, 70);
            let d: String = (0..n).map(|_| std::char::from_digit(s.below(base) as u32, base as u32).unwrap()).collect();
            match base {
                8 => format!("0{}", d),
                10 => format!("{}{}", s.pick::<&str>(&["", "-", "+"]), d),
                16 if s.bool() => format!("0x{}", d.to_uppercase()),
                b => format!("{}r{}", b, d),
            }
        }
        2 => {
            let l = long(s);
            let k = s.range(-2, 2) as i128;
            format!("{}", (l as i128) * *s.pick(&[1i128, 10, -1, 2]) + k)
        }
        _ => {
            let l = long(s);
            format!("{} {}", s.pick::<&str>(&["#instmicros", "#instmillis"]), (l as i128).abs() * *s.pick(&[1i128, 1, 1000]))
        }
    }
}

fn a_value(s: &mut Src) -> String {
    match s.weighted(&[3, 2, 1, 1, 1]) {
        0 => plain(&atom(s)),
        1 => num(s),
        2 => s.pick::<&str>(&["(lookup-ref :a/b 1)", "(lookup-ref 12 \"x\")", "(transaction-tx)", "(foo)"]).to_string(),
        3 => format!("[{} {}]", num(s), plain(&atom(s))),
        _ => {
            let d = s.size(1, 2);
            plain(&value(s, d))
        }
    }
}
fn an_attr(s: &mut Src) -> String {
    match s.below(6) {
        0 => num(s),
        1 => ":a/_b".into(),
        2 => s.pick::<&str>(&[":a/_", ":a/__b", ":a", ":db/id", ":db/ident", ":a.b.c/d-e", ":_/a"]).to_string(),
        _ => ":a/b".into(),
    }
}
fn an_entity(s: &mut Src, depth: usize) -> String {
    if depth > 0 && s.chance(1, 3) {
        let n = s.size(0, 3);
        let mut o = String::from("{");
        for _ in 0..n {
            let v = if s.chance(1, 3) { an_entity(s, depth - 1) } else { a_value(s) };
            o.push_str(&format!("{} {} ", an_attr(s), v));
        }
        o.push('}');
        return o;
    }
    let e = match s.below(4) {
        0 => "\"t\"".into(),
        1 => s.pick::<&str>(&["(lookup-ref :a/b 1)", "(transaction-tx)", ":db/ident", ":plain"]).to_string(),
        _ => num(s),
    };
    format!("[{} {} {} {}]", s.pick::<&str>(&[":db/add", ":db/retract", ":db/add", ":db/retractEntity"]), e, an_attr(s), a_value(s))
}
fn transaction(s: &mut Src) -> String {
    let n = s.size(0, 3);
    let es: Vec<String> = (0..n).map(|_| an_entity(s, 2)).collect();
    format!("[{}]", es.join(" "))
}
fn var(s: &mut Src) -> String {
    s.pick::<&str>(&["?x", "?y", "?z", "?x-1", "?", "?_"]).to_string()
}
fn q_arg(s: &mut Src) -> String {
    match s.below(4) {
        0 => a_value(s),
        1 => s.pick::<&str>(&["$", "_", "[1 2 3]", "[[1 2] [3 4]]", "[]", "[?x]", ":a/b", "%"]).to_string(),
        _ => var(s),
    }
}
fn q_clause(s: &mut Src, depth: usize) -> String {
    let k = if depth == 0 { s.below(6) } else { s.below(10) };
    let sub = |s: &mut Src| {
        let n = s.size(0, 3);
        (0..n).map(|_| q_clause(s, depth - 1)).collect::<Vec<_>>().join(" ")
    };
    match k {
        1 | 2 => {
            let v = match s.below(4) {
                0 => var(s),
                1 => num(s),
                2 => plain(&atom(s)),
                _ => "_".into(),
            };
            format!("[{} {} {}]", var(s), s.pick::<&str>(&[":a/b", ":a/_b", ":a.b/c", "?y", "_"]), v)
        }
        0 => {
            let n = s.size(1, 5);
            let parts: Vec<String> = (0..n)
                .map(|i| if i == 1 && s.bool() { an_attr(s) } else { q_arg(s) })
                .collect();
            format!("[{}]", parts.join(" "))
        }
        3 => format!("[({} {} {})]", s.pick::<&str>(&["<", ">=", "!=", "=", "foo"]), q_arg(s), q_arg(s)),
        4 => format!("[({} {} {}) {}]", s.pick::<&str>(&["ground", "fulltext", "tx-ids", "tx-data", "get-else"]), q_arg(s), q_arg(s), s.pick::<&str>(&["?z", "[?z ...]", "[[?x ?y]]", "[[_ _]]", "[?x _]", "[]", "_", "[[?x] [?y]]"])),
        5 => format!("[(type {} {})]", var(s), s.pick::<&str>(&[":db.type/long", ":db.type/ref", ":db.type/nope", ":long", "5"])),
        6 => format!("(not {})", sub(s)),
        7 => format!("(not-join [{}] {})", var(s), sub(s)),
        8 => format!("(or {} (and {}))", sub(s), sub(s)),
        _ => format!("(or-join [{} {}] {})", var(s), var(s), sub(s)),
    }
}
fn query(s: &mut Src) -> String {
    let mut parts = vec![];
    let el = |s: &mut Src| match s.below(6) {
        0 => format!("({} {})", s.pick::<&str>(&["count", "sum", "the", "max", "avg", "nope"]), q_arg(s)),
        1 => format!("(pull {} [{}])", var(s), s.pick::<&str>(&["*", ":a/b", ":a/b :as :c", ":a/_b", ":db/id", ":a/b :as", ""])),
        _ => var(s),
    };
    if !s.chance(1, 12) {
        let e = el(s);
        parts.push(match s.below(4) {
            0 => format!(":find {} .", e),
            1 => format!(":find [{} ...]", e),
            2 => format!(":find [{} {}]", e, el(s)),
            _ => format!(":find {} {}", e, el(s)),
        });
    }
    if s.chance(1, 3) {
        parts.push(format!(":in {} {}", s.pick::<&str>(&["$", "?y", ""]), var(s)));
    }
    if s.chance(1, 4) {
        parts.push(format!(":with {}", var(s)));
    }
    if !s.chance(1, 12) {
        let n = s.size(0, 3);
        let cs: Vec<String> = (0..n).map(|_| q_clause(s, 2)).collect();
        parts.push(format!(":where {}", cs.join(" ")));
    }
    if s.chance(1, 3) {
        parts.push(format!(":order {}", s.pick::<&str>(&["?x", "(asc ?x)", "(desc ?y) ?x", "(up ?x)"])));
    }
    if s.chance(1, 3) {
        parts.push(format!(":limit {}", q_arg(s)));
    }
    if s.chance(1, 8) {
        let i = s.idx(parts.len().max(1));
        if let Some(p) = parts.get(i).cloned() {
            parts.push(p);
        }
    }
    if s.chance(1, 8) && parts.len() > 1 {
        parts.swap(0, 1);
    }
    format!("[{}]", parts.join(" "))
}
fn deep(s: &mut Src) -> String {
    let n = s.size(1, 60);
    let (a, b): (&str, &str) = *s.pick(&[("[", "]"), ("(", ")"), ("{1 ", "}"), ("#{", "}"), ("[[", "]]"), ("(not ", ")"), ("(or ", ")"), ("(or (and ", "))"), ("(not-join [?x] ", ")"), ("(", "]"), ("{[1] {", "} 2}"), ("[(f ", ")]"), ("{:a/b ", "}")]);
    let inner = *s.pick(&["", "1", "[?x :a/b ?y]", "{:a/b 1}", "?x", "]"]);
    let m = if s.bool() { n } else { s.size(0, n) };
    let body = format!("{}{}{}", a.repeat(n), inner, b.repeat(m));
    match s.below(4) {
        0 => format!("[:find ?x :where {}]", body),
        1 => format!("[{}]", body),
        2 => format!("[[:db/add \"t\" :a/b {}]]", body),
        _ => body,
    }
}
fn mutate(s: &mut Src, t: String) -> String {
    let mut c: Vec<char> = t.chars().collect();
    for _ in 0..s.size(0, 6) {
        if c.is_empty() {
            break;
        }
        let i = s.idx(c.len());
        match s.below(6) {
            0 => {
                c.remove(i);
            }
            1 => {
                let t: Vec<char> = s.pick(TOKS).chars().collect();
                c.splice(i..i, t);
            }
            2 => {
                let j = std::cmp::min(c.len(), i + s.size(1, 12));
                let sl: Vec<char> = c[i..j].to_vec();
                let k = s.idx(c.len());
                c.splice(k..k, sl);
            }
            3 => {
                let j = std::cmp::min(c.len(), i + s.size(1, 12));
                c.drain(i..j);
            }
            4 => c.truncate(i),
            _ => {
                let t: Vec<char> = s.pick(TOKS).chars().collect();
                c[i] = t[0];
            }
        }
    }
    c.truncate(2000);
    c.into_iter().collect()
}

/// Debug text with the source positions taken out.
fn bare<T: std::fmt::Debug>(x: &T) -> String {
    let t = format!("{:?}", x);
    let mut o = String::new();
    let mut rest = &t[..];
    while let Some(i) = rest.find("span: Span(") {
        o.push_str(&rest[..i]);
        let r = &rest[i..];
        rest = &r[r.find(')').map(|j| j + 1).unwrap_or(r.len())..];
    }
    o.push_str(rest);
    o
}

fn timed<T>(what: &str, t: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let st = Instant::now();
    let r = guarded(f).map_err(|p| format!("{} on {:?}: {}", what, t, p))?;
    check!(st.elapsed() < Duration::from_secs(10), "{} took {:?} on {:?}", what, st.elapsed(), t);
    Ok(r)
}

pub fn judge(t: &str, ctx: &mut Ctx) -> CaseResult {
    let v = timed("the value parser", t, || edn::parse::value(t).map(|v| v.without_spans()).map_err(|e| e.to_string()))?;
    let strict = Reader::read(t);
    let es = timed("the entities parser", t, || edn::parse::entities(t).map(|e| bare(&e)).map_err(|e| e.to_string()))?;
    let q = timed("the query parser", t, || edn::parse::parse_query(t).map(|e| bare(&e)).map_err(|e| e.to_string()))?;
    let front = timed("the query front end", t, || mentat_query_algebrizer::parse_find_string(t).map(|_| ()).map_err(|e| e.to_string()))?;
    if front.is_ok() {
        check!(q.is_ok(), "parse_find_string accepts {:?}, which the query parser does not", t);
    }
    if es.is_ok() {
        ctx.label("accepted as a transaction");
    }
    if q.is_ok() {
        ctx.label("accepted as a query");
    }
    match &strict {
        Ok(want) => {
            ctx.label("EDN");
            match &v {
                Ok(got) => check!(got == want, "{:?} reads as {:?}, not {:?}", t, got, want),
                Err(e) => fail!("{:?} is EDN but rejected: {}", t, e),
            }
            if far(want) {
                ctx.label("instant beyond the year 9999");
                ctx.nontrivial = true;
                return Ok(());
            }
            let canon = plain(want);
            let es2 = timed("the entities parser", &canon, || edn::parse::entities(&canon).map(|e| bare(&e)).map_err(|e| e.to_string()))?;
            let q2 = timed("the query parser", &canon, || edn::parse::parse_query(&canon).map(|e| bare(&e)).map_err(|e| e.to_string()))?;
            check!(es.is_ok() == es2.is_ok() && (es.is_err() || es == es2 || maps(want)), "as a transaction {:?} means {:?} and {:?} means {:?}", t, es, canon, es2);
            check!(q.is_ok() == q2.is_ok() && (q.is_err() || q == q2 || maps(want)), "as a query {:?} means {:?} and {:?} means {:?}", t, q, canon, q2);
        }
        Err(Rd::Reject(why)) => {
            ctx.label("not EDN");
            check!(v.is_err(), "{:?} reads as {:?} although it is not EDN ({})", t, v, why);
            check!(es.is_err(), "{:?} is a transaction although it is not EDN ({})", t, why);
            check!(q.is_err(), "{:?} is a query although it is not EDN ({})", t, why);
        }
        Err(Rd::Unknown(_)) => ctx.label("not judged"),
    }
    ctx.nontrivial = t.len() >= 4 && (!matches!(strict, Err(Rd::Unknown(_))) || es.is_ok() || q.is_ok());
    Ok(())
}
/// Does the value hold an instant that has no #inst notation?
fn far(v: &Value) -> bool {
    match v {
        Value::Instant(i) => chrono::Datelike::year(i) > 9999,
        Value::Vector(x) => x.iter().any(far),
        Value::List(x) => x.iter().any(far),
        Value::Set(x) => x.iter().any(far),
        Value::Map(x) => x.iter().any(|(k, v)| far(k) || far(v)),
        _ => false,
    }
}
/// Does the value hold a set, whose printing may reorder it?
fn maps(v: &Value) -> bool {
    match v {
        Value::Set(_) => true,
        Value::Vector(x) => x.iter().any(maps),
        Value::List(x) => x.iter().any(maps),
        Value::Map(x) => x.iter().any(|(k, v)| maps(k) || maps(v)),
        _ => false,
    }
}

fn run(s: &mut Src, ctx: &mut Ctx, _t: &Tier) -> CaseResult {
    let t = match s.weighted(&[3, 2, 4, 4, 1, 2]) {
        0 => soup(s),
        1 => {
            let d = s.size(0, 3);
            let v = value(s, d);
            let mut toks = vec![];
            tokens(&v, &mut toks);
            layout(s, &toks)
        }
        2 => transaction(s),
        3 => query(s),
        4 => deep(s),
        _ => {
            let n = num(s);
            match s.below(3) {
                0 => n,
                1 => format!("[{} {}]", n, num(s)),
                _ => format!("{{:a/b {}}}", n),
            }
        }
    };
    let t = if s.chance(2, 5) { mutate(s, t) } else { t };
    ctx.note(format!("text {:?}", t));
    judge(&t, ctx)
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("out-of-range integers", |c| {
            for t in NUMS {
                judge(t, c)?;
                judge(&format!("[{}]", t), c)?;
                judge(&format!("[[:db/add {} :a/b {0}]]", t), c)?;
                judge(&format!("[:find ?x :where [?x :a/b {}] :limit {0}]", t), c)?;
            }
            Ok(())
        }),
        ("big integer as an entity id", |c| judge("[{:a/b 0 -3N }]", c)),
        ("reversing an unnameable attribute", |c| {
            judge("[[:db/add 1 :a/_ 2]]", c)?;
            judge("[:find ?x :where [?x :a/_ ?y]]", c)
        }),
    ]
}
