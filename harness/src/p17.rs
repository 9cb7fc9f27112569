//! P17: printing and parsing EDN.

use crate::check;
use crate::ednval::*;
use crate::engine::*;
use edn::{SpannedValue, Value, ValueAndSpan};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub static PROP: Prop = Prop {
    id: "P17",
    rule: "EDN values of every kind, nested up to 4 deep with up to 4 elements a collection: numbers at the edges of their ranges, big integers, all doubles, instants of the years 0000-9999 with up to nanosecond fractions, strings of arbitrary Unicode with quotes, backslashes and control characters, keywords and symbols over the whole documented alphabet including those that begin with `nil`, `true` or `false`. Each is printed with Display, pretty-printed at several widths, and laid out by the harness's own printer with random whitespace, commas and comments between tokens; every text must parse to the value, the spans must delimit exactly the text of each nested value, and conversion to and from the spanned form must keep the value. For triples of related values, the ordering must be total, transitive, antisymmetric and consistent with equality and hashing. Non-trivial: the value has at least four tokens and contains a string, float, symbol or instant.",
    quick_cases: 400000,
    thorough_cases: 12000000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["instants outside the years 0000-9999 have no #inst notation and are left out", "names outside the documented symbol alphabet are left out", "symbols do not begin with a digit"],
};

fn parse(t: &str, what: &str) -> Result<ValueAndSpan, String> {
    guarded(|| edn::parse::value(t)).map_err(|p| format!("parsing {} {:?}: {}", what, t, p))?.map_err(|e| format!("{} {:?} is not accepted: {}", what, t, e))
}

fn hash(v: &Value) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn spans(t: &str, v: &ValueAndSpan) -> CaseResult {
    let (a, b) = (v.span.0 as usize, v.span.1 as usize);
    check!(a < b && b <= t.len() && t.is_char_boundary(a) && t.is_char_boundary(b), "span {}..{} of a value in {:?}", a, b, t);
    let sub = &t[a..b];
    check!(sub.trim() == sub && !sub.starts_with(|c| c == ',' || c == ';'), "the span {:?} in {:?} is not tight", sub, t);
    let again = parse(sub, "the text of a span")?;
    check!(again.clone().without_spans() == v.clone().without_spans(), "the span {:?} of {:?} reads as {}, not {}", sub, t, again, v);
    match &v.inner {
        SpannedValue::Vector(xs) => xs.iter().try_for_each(|x| spans(t, x)),
        SpannedValue::List(xs) => xs.iter().try_for_each(|x| spans(t, x)),
        SpannedValue::Set(xs) => xs.iter().try_for_each(|x| spans(t, x)),
        SpannedValue::Map(xs) => xs.iter().try_for_each(|(k, x)| spans(t, k).and_then(|_| spans(t, x))),
        _ => Ok(()),
    }
}

pub fn round_trip(s: &mut Src, v: &Value) -> CaseResult {
    let same = |t: &str, what: &str| -> Result<ValueAndSpan, String> {
        let p = parse(t, what)?;
        let got = p.clone().without_spans();
        check!(got == *v, "{} {:?} reads back as {:?}, not {:?}", what, t, got, v);
        Ok(p)
    };
    let shown = guarded(|| v.to_string())?;
    let p = same(&shown, "printed")?;
    check!(p.to_string() == shown && p.inner.to_string() == shown, "the spanned form of {:?} prints {:?}", shown, p.to_string());
    for w in [1usize, 20, 40, 120].iter() {
        if s.bool() {
            let pretty = guarded(|| v.to_pretty(*w))?.map_err(|e| e.to_string())?;
            same(&pretty, "pretty-printed")?;
        }
    }
    let mut toks = vec![];
    tokens(v, &mut toks);
    let text = layout(s, &toks);
    let p = same(&text, "laid out")?;
    spans(&text, &p)?;
    match Reader::read(&text) {
        Ok(r) => check!(r == *v, "harness reader disagrees on {:?}: {:?}", text, r),
        Err(e) => fail!("harness reader does not accept {:?}: {:?}", text, e),
    }
    let spanned = guarded(|| v.clone().with_spans())?;
    check!(spanned.without_spans() == *v, "with_spans changes {}", shown);
    Ok(())
}

fn order(a: &Value, b: &Value, c: &Value) -> CaseResult {
    for (x, y) in [(a, b), (b, c), (a, c), (a, a)].iter() {
        let o = x.cmp(y);
        check!(x.partial_cmp(y) == Some(o), "partial_cmp and cmp differ on {} and {}", x, y);
        check!(y.cmp(x) == o.reverse(), "{} and {} compare {:?} and {:?}", x, y, o, y.cmp(x));
        check!((o == Ordering::Equal) == (x == y), "{} and {}: cmp {:?}, equal {}", x, y, o, x == y);
        if x == y {
            check!(hash(x) == hash(y), "{} and {} are equal with different hashes", x, y);
        }
    }
    if a.cmp(b) != Ordering::Greater && b.cmp(c) != Ordering::Greater {
        check!(a.cmp(c) != Ordering::Greater, "{} <= {} <= {} but not {0} <= {2}", a, b, c);
        if a.cmp(c) == Ordering::Equal {
            check!(a.cmp(b) == Ordering::Equal, "{} = {} but {} is strictly between", a, c, b);
        }
    }
    Ok(())
}

fn keywords(s: &mut Src) -> CaseResult {
    let (ns, n) = (namespace(s, true), name(s, true));
    let k = edn::Keyword::namespaced(&ns[..], &n[..]);
    check!(k.name() == n && k.namespace() == Some(&ns[..]) && k.is_namespaced() && k.components() == (&ns[..], &n[..]), "{} lost its parts", k);
    check!(k.is_backward() == (n.starts_with('_') && n != "_") && k.is_forward() != k.is_backward(), "direction of {}", k);
    if n != "_" {
        let r = guarded(|| k.to_reversed())?;
        check!(r.is_backward() != k.is_backward() || n.starts_with("__"), "reversal of {} is {}", k, r);
        if !n.starts_with('_') {
            check!(r.name() == format!("_{}", n) && r.to_reversed() == k && r.unreversed() == Some(k.clone()) && k.unreversed() == None, "reversal of {}: {}", k, r);
        }
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx, _t: &Tier) -> CaseResult {
    let d = s.size(0, 4);
    let v = value(s, d);
    let mut toks = vec![];
    tokens(&v, &mut toks);
    ctx.note(format!("value {}", plain(&v)));
    let rich = toks.iter().any(|t| t.starts_with('"') || t.contains('.') || t.starts_with('#') || t.starts_with(|c: char| c.is_alphabetic()));
    ctx.nontrivial = toks.len() >= 4 && rich;
    if toks.len() > 20 {
        ctx.label("more than 20 tokens");
    }
    if toks.iter().any(|t| t.starts_with('"') && (t.contains('\\') || !t.is_ascii())) {
        ctx.label("string with escapes or non-ASCII");
    }
    round_trip(s, &v)?;
    let b = near(s, &v);
    let c = if s.bool() { near(s, &b) } else { value(s, 2) };
    order(&v, &b, &c)?;
    keywords(s)
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn rt(v: Value) -> CaseResult {
        round_trip(&mut Src::replay(vec![]), &v)
    }
    fn one(t: &str, v: Value) -> CaseResult {
        let got = parse(t, "text")?.without_spans();
        check!(got == v, "{:?} reads as {:?}", t, got);
        Ok(())
    }
    vec![
        ("strings with quotes and backslashes", |_| rt(Value::Text("a\"b\\c\n".into()))),
        ("whole doubles", |_| rt(Value::from_float(1.0))),
        ("small and large doubles", |_| rt(Value::Vector(vec![Value::from_float(1e-7), Value::from_float(1e300), Value::from_float(-0.0)]))),
        ("escaped newline", |_| one("\"a\\nb\\tc\\rd\"", Value::Text("a\nb\tc\rd".into()))),
        ("symbols beginning like literals", |_| one("[nilly trueish falsey nil/x true]", Value::Vector(vec![
            Value::from_symbol(None, "nilly"), Value::from_symbol(None, "trueish"), Value::from_symbol(None, "falsey"), Value::from_symbol("nil", "x"), Value::Boolean(true)]))),
    ]
}
