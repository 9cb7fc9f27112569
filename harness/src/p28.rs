//! P28: ill-formed queries are rejected cleanly and never disturb the store.

use crate::check;
use crate::db::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::query::*;
use crate::vals::*;
use crate::world::*;
use mentat::{CacheDirection, QueryInputs, Queryable, ValueType, Variable};
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "P28",
    rule: "Random stores (some attributes cached) and queries put together from the whole query grammar with parts that usually, but not always, fit: unknown attributes, idents that are no attributes, ids of nothing, unbound, clashing and repeated variables, every literal in every place, integers beyond 64 bits, predicates, functions, bindings and aggregates of any name and arity, named sources, pulls, nested or / not over any variables, orders, limits, and inputs that are missing, surplus or of any type. Each is run, explained, prepared and run twice, on the store and inside open transactions. Also the well-formed queries of P10 with parts replaced. Non-trivial: a query that was refused or answered after parsing, with at least two clauses.",
    quick_cases: 8000,
    thorough_cases: 120000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["what an ill-formed query should answer, other than an answer or an error, is not specified; where a query both runs once and runs prepared, the two agree on succeeding"],
};

struct G<'a> {
    m: &'a Model,
    attrs: Vec<String>,
    idents: Vec<String>,
    ents: Vec<i64>,
    values: Vec<V>,
    nv: usize,
    wild: u64,
}

const OPS: [&str; 10] = ["=", "!=", "<", "<=", ">", ">=", "==", "not", "foo", "lower-case"];
const FNS: [&str; 10] = ["ground", "ground", "ground", "fulltext", "fulltext", "tx-ids", "tx-data", "tx-data", "get-else", "+"];
const AGGS: [&str; 8] = ["count", "min", "max", "sum", "avg", "count-distinct", "stddev", "foo"];

impl<'a> G<'a> {
    fn odd(&self, s: &mut Src) -> bool {
        s.chance(self.wild, 100)
    }
    fn var(&self, s: &mut Src) -> String {
        format!("?v{}", s.idx(self.nv))
    }
    fn attr(&self, s: &mut Src) -> String {
        if self.odd(s) {
            return match s.below(8) {
                0 => ":no/such".to_string(),
                1 => s.pick(&self.idents).clone(),
                2 => "123456".into(),
                3 => self.literal(s),
                4 => ":unqualified".into(),
                5 => s.pick(&self.attrs).replace('/', "/_"),
                6 => self.m.idents[s.pick(&self.attrs)].to_string(),
                _ => s.pick(&[":db/ident", ":db/txInstant", ":db/doc", ":db/valueType", ":db.install/valueType"]).to_string(),
            };
        }
        match s.weighted(&[6, 2, 1]) {
            0 => s.pick(&self.attrs).clone(),
            1 => self.var(s),
            _ => "_".into(),
        }
    }
    fn entity(&self, s: &mut Src) -> String {
        if self.odd(s) {
            return match s.below(4) {
                0 => self.literal(s),
                1 => "9999999999".into(),
                2 => "$".into(),
                _ => ":no/such".into(),
            };
        }
        match s.weighted(&[6, 1, 1, 1]) {
            0 => self.var(s),
            1 => "_".into(),
            2 => s.pick(&self.ents).to_string(),
            _ => s.pick(&self.idents).clone(),
        }
    }
    fn literal(&self, s: &mut Src) -> String {
        match s.below(18) {
            0 => "true".into(),
            1 => "false".into(),
            2 => "0".into(),
            3 => "-1".into(),
            4 => "9223372036854775807".into(),
            5 => "99999999999999999999N".into(),
            6 => "1.5".into(),
            7 => s.pick(&["#f NaN", "#f +Infinity", "-0.0", "1e300"]).to_string(),
            8 => "\"str\"".into(),
            9 => "\"\"".into(),
            10 => ":kw".into(),
            11 => ":ns/kw".into(),
            12 => "#inst \"2017-01-01T00:00:00Z\"".into(),
            13 => "#instmicros 5".into(),
            14 => "#uuid \"550e8400-e29b-41d4-a716-446655440000\"".into(),
            15 if s.chance(2, 3) => "7".into(),
            15 => s.pick(&["nil", "a/b", "sym", "$", "$x", "%", "...", "_"]).to_string(),
            16 => {
                let n = s.size(0, 3);
                let c: Vec<String> = (0..n).map(|_| self.literal(s)).collect();
                let (a, b) = *s.pick(&[("[", "]"), ("[", "]"), ("(", ")"), ("#{", "}"), ("{", "}")]);
                format!("{}{}{}", a, c.join(" "), b)
            }
            _ => s.pick_opt(&self.values).map_or("1".into(), |v| v.edn()),
        }
    }
    fn value(&self, s: &mut Src) -> String {
        if self.odd(s) {
            return self.literal(s);
        }
        match s.weighted(&[5, 3, 1, 1, 1]) {
            0 => self.var(s),
            1 => s.pick_opt(&self.values).map_or("1".into(), |v| v.edn()),
            2 => "_".into(),
            3 => s.pick(&self.ents).to_string(),
            _ => s.pick(&self.idents).clone(),
        }
    }
    fn pattern(&self, s: &mut Src) -> String {
        let mut o = String::from("[");
        if s.chance(1, 20) {
            o.push_str(*s.pick(&["$ ", "$x ", "% "]));
        }
        o.push_str(&self.entity(s));
        o.push(' ');
        o.push_str(&self.attr(s));
        if s.chance(4, 5) {
            o.push(' ');
            o.push_str(&self.value(s));
            if s.chance(1, 6) {
                o.push(' ');
                o.push_str(&self.entity(s));
            }
        }
        o.push(']');
        o
    }
    fn arg(&self, s: &mut Src) -> String {
        match s.weighted(&[5, 3, 2]) {
            0 => self.var(s),
            1 => self.value(s),
            _ => self.literal(s),
        }
    }
    fn args(&self, s: &mut Src, usual: usize) -> String {
        let n = if self.odd(s) { s.size(0, 4) } else { usual };
        (0..n).map(|_| self.arg(s)).collect::<Vec<_>>().join(" ")
    }
    fn binding(&self, s: &mut Src, width: usize) -> String {
        let w = if self.odd(s) { s.size(1, 6) } else { width };
        let vs = |s: &mut Src| (0..w).map(|_| if s.chance(1, 5) { "_".to_string() } else { self.var(s) }).collect::<Vec<_>>().join(" ");
        match s.weighted(&[3, 3, 2, 2]) {
            0 => format!("[[{}]]", vs(s)),
            1 => self.var(s),
            2 => format!("[{} ...]", self.var(s)),
            _ => format!("[{}]", vs(s)),
        }
    }
    fn func(&self, s: &mut Src) -> String {
        let f = *s.pick(&FNS);
        match f {
            "ground" if !self.odd(s) => {
                let n = s.size(1, 3);
                let w = s.size(1, 3);
                let lits = |s: &mut Src, n: usize| (0..n).map(|_| if s.chance(1, 8) { self.arg(s) } else { self.literal(s) }).collect::<Vec<_>>().join(" ");
                let v = match s.below(3) {
                    0 => lits(s, 1),
                    1 => format!("[{}]", lits(s, n)),
                    _ => {
                        let rows: Vec<String> = (0..n)
                            .map(|_| {
                                let w = if s.chance(1, 10) { s.size(1, 3) } else { w };
                                format!("[{}]", lits(s, w))
                            })
                            .collect();
                        format!("[{}]", rows.join(" "))
                    }
                };
                format!("[(ground {}) {}]", v, self.binding(s, w))
            }
            "fulltext" if !self.odd(s) => {
                let src = if self.odd(s) { self.arg(s) } else { "$".into() };
                let a = self.attr(s);
                let w = s.size(1, 4);
                format!("[(fulltext {} {} {}) {}]", src, a, if s.bool() { "\"a\"".to_string() } else { self.arg(s) }, self.binding(s, w))
            }
            "tx-ids" | "tx-data" if !self.odd(s) => {
                let src = if self.odd(s) { self.arg(s) } else { "$".into() };
                let n = if f == "tx-ids" { 2 } else { 1 };
                let tx = |s: &mut Src| match s.below(4) {
                    0 => "268435457".to_string(),
                    1 => "#inst \"2037-01-01T00:00:00Z\"".to_string(),
                    _ => self.arg(s),
                };
                let a: Vec<String> = (0..n).map(|_| tx(s)).collect();
                let w = if n == 2 { 1 } else { s.size(1, 5) };
                format!("[({} {} {}) {}]", f, src, a.join(" "), self.binding(s, w))
            }
            _ => format!("[({} {}) {}]", f, self.args(s, 2), self.binding(s, 1)),
        }
    }
    fn clauses(&self, s: &mut Src, depth: usize, lo: usize, hi: usize) -> String {
        let n = s.size(lo, hi);
        (0..n).map(|_| self.clause(s, depth)).collect::<Vec<_>>().join(" ")
    }
    fn rule_vars(&self, s: &mut Src) -> String {
        let n = s.size(1, 3);
        let mut vs: Vec<String> = (0..n).map(|_| self.var(s)).collect();
        if !s.chance(1, 30) {
            vs.sort();
            vs.dedup();
        }
        vs.join(" ")
    }
    fn clause(&self, s: &mut Src, depth: usize) -> String {
        let d = if depth > 0 { 2 } else { 0 };
        match s.weighted(&[10, 3, 1, 4, d, d, d, d]) {
            0 => self.pattern(s),
            1 => {
                let op = if self.odd(s) { *s.pick(&OPS) } else { *s.pick(&OPS[1..6]) };
                format!("[({} {})]", op, self.args(s, 2))
            }
            2 => format!("[(type {} {})]", self.var(s), if self.odd(s) { s.pick(&[":db.type/foo", ":long", ":db/long", ":a/b"]).to_string() } else { s.pick(&ALL_VT).ident().to_string() }),
            3 => self.func(s),
            4 => format!("(not {})", self.clauses(s, depth - 1, 1, 2)),
            5 => format!("(not-join [{}] {})", self.rule_vars(s), self.clauses(s, depth - 1, 1, 2)),
            k => {
                let n = s.size(1, 3);
                let legs: Vec<String> = (0..n).map(|_| if s.chance(1, 3) { format!("(and {})", self.clauses(s, depth - 1, 1, 3)) } else { self.clause(s, depth - 1) }).collect();
                if k == 6 {
                    format!("(or {})", legs.join(" "))
                } else {
                    format!("(or-join [{}] {})", self.rule_vars(s), legs.join(" "))
                }
            }
        }
    }
    fn element(&self, s: &mut Src) -> String {
        match s.weighted(&[10, 3, 1, 2]) {
            0 => self.var(s),
            1 => {
                let f = if self.odd(s) { *s.pick(&AGGS) } else { *s.pick(&AGGS[..5]) };
                if self.odd(s) {
                    format!("({} {})", f, self.args(s, 1))
                } else {
                    format!("({} {})", f, self.var(s))
                }
            }
            2 => format!("(the {})", self.var(s)),
            _ => {
                let n = s.size(1, 3);
                let ps: Vec<String> = (0..n)
                    .map(|_| {
                        let a = match s.below(8) {
                            0 => "*".into(),
                            1 => ":db/id".into(),
                            2 => ":no/such".into(),
                            3 => s.pick(&self.idents).clone(),
                            4 => ":db/ident".into(),
                            _ => s.pick(&self.attrs).clone(),
                        };
                        if a != "*" && s.chance(1, 4) {
                            format!("{} :as {}", a, s.pick(&[":x/y", ":alias", ":db/id"]))
                        } else {
                            a
                        }
                    })
                    .collect();
                format!("(pull {} [{}])", self.var(s), ps.join(" "))
            }
        }
    }
    fn query(&self, s: &mut Src) -> (String, BTreeMap<Variable, ValueType>, BTreeMap<Variable, V>) {
        let find = match s.weighted(&[6, 2, 2, 2]) {
            0 => {
                let n = s.size(1, 3);
                (0..n).map(|_| self.element(s)).collect::<Vec<_>>().join(" ")
            }
            1 => format!("{} .", self.element(s)),
            2 => format!("[{} ...]", self.element(s)),
            _ => {
                let n = s.size(1, 3);
                format!("[{}]", (0..n).map(|_| self.element(s)).collect::<Vec<_>>().join(" "))
            }
        };
        let mut parts = vec![format!(":find {}", find)];
        if !s.chance(1, 10) {
            // Without repetitions.
            let mut seen = std::collections::BTreeSet::new();
            let words: Vec<&str> = parts[0].split(' ').filter(|w| !(w.starts_with('?') && w.len() == 3) || seen.insert(*w)).collect();
            parts = vec![words.join(" ")];
        }
        if s.chance(1, 8) {
            let n = s.size(1, 2);
            parts.push(format!(":with {}", (0..n).map(|_| self.var(s)).collect::<Vec<_>>().join(" ")));
        }
        let mut types = BTreeMap::new();
        let mut values = BTreeMap::new();
        let mut input = |s: &mut Src, v: &str, tidy: bool| {
            let k = Variable::from_valid_name(v);
            if tidy || !s.chance(1, 5) {
                let v = match s.below(4) {
                    0 => V::Ref(*s.pick(&self.ents)),
                    1 if !self.attrs.is_empty() => V::Ref(self.m.idents[s.pick(&self.attrs)]),
                    2 => {
                        let vt = *s.pick(&ALL_VT);
                        small_value(s, vt, &self.ents)
                    }
                    _ => s.pick_opt(&self.values).cloned().unwrap_or(V::Long(1)),
                };
                values.insert(k, v);
            } else if s.bool() {
                types.insert(k, s.pick(&ALL_VT).mentat());
            }
        };
        if s.chance(1, 3) {
            let n = s.size(1, 3);
            let mut vs: Vec<String> = (0..n).map(|_| self.var(s)).collect();
            if !s.chance(1, 10) {
                vs.sort();
                vs.dedup();
            }
            for v in &vs {
                let tidy = !self.odd(s);
                input(s, v, tidy);
            }
            if s.chance(1, 10) {
                let v = self.var(s);
                input(s, &v, false);
            }
            parts.push(format!(":in {}", vs.join(" ")));
        }
        if s.chance(1, 5) {
            let n = s.size(1, 3);
            let os: Vec<String> = (0..n)
                .map(|_| {
                    let v = self.var(s);
                    match s.below(3) {
                        0 => v,
                        1 => format!("(asc {})", v),
                        _ => format!("(desc {})", v),
                    }
                })
                .collect();
            parts.push(format!(":order {}", os.join(" ")));
        }
        if s.chance(1, 5) {
            parts.push(format!(":limit {}", if s.bool() { self.var(s) } else { s.pick(&["1", "2", "9223372036854775807", "0", "-1"]).to_string() }));
        }
        parts.push(format!(":where {}", self.clauses(s, 2, 1, 4)));
        (format!("[{}]", parts.join(" ")), types, values)
    }
}

fn pose<Q: Queryable>(q: &Q, text: &str, types: &BTreeMap<Variable, ValueType>, values: &BTreeMap<Variable, V>, ctx: &mut Ctx, how: usize) -> CaseResult {
    match guarded(|| pose1(q, text, types, values, ctx, how)) {
        Ok(r) => r,
        Err(e) => Err(format!("{} {:?} {:?}: {}", text, types, values, e)),
    }
}

fn pose1<Q: Queryable>(q: &Q, text: &str, types: &BTreeMap<Variable, ValueType>, values: &BTreeMap<Variable, V>, ctx: &mut Ctx, how: usize) -> CaseResult {
    let mk = || QueryInputs::new(types.clone(), values.iter().map(|(k, v)| (k.clone(), v.typed())).collect()).map_err(es);
    let qi = match mk() {
        Ok(q) => q,
        Err(_) => {
            ctx.label("inputs refused");
            return Ok(());
        }
    };
    match how {
        0 => match q.q_once(text, qi) {
            Ok(o) => {
                ctx.label(if o.is_empty() { "answered, empty" } else { "answered, rows" });
                let _ = o.len();
            }
            Err(e) => ctx.label(kind(&format!("{:?}", e))),
        },
        1 => match q.q_explain(text, qi) {
            Ok(_) => ctx.label("explained"),
            Err(_) => ctx.label("explain refused"),
        },
        _ => {
            let once = q.q_once(text, mk().unwrap()).map(|o| o.len());
            let prepared = q.q_prepare(text, qi);
            match prepared {
                Ok(mut p) => {
                    ctx.label("prepared");
                    for _ in 0..2 {
                        let r = p.run(None).map(|o| o.len());
                        check!(r.is_ok() == once.is_ok(), "{}: once {:?}, prepared {:?}", text, once.as_ref().map_err(es), r.as_ref().map_err(es));
                        if let (Ok(a), Ok(b)) = (&r, &once) {
                            check!(a == b, "{}: {} rows once, {} prepared", text, b, a);
                        }
                    }
                }
                Err(_) => ctx.label("prepare refused"),
            }
        }
    }
    Ok(())
}

fn kind(e: &str) -> &'static str {
    for k in &["EdnParseError", "UnboundVariable", "InvalidBinding", "InvalidGroundConstant", "UnknownFunction", "InvalidNumberOfArguments", "InvalidArgument", "NonMatchingVariables", "InvalidLimit", "UnsupportedArgument", "BadBoundVar", "CannotApplyAggregateOperationToTypes", "CannotProjectImpossibleBinding", "AmbiguousAggregates", "DuplicateVariable", "RusqliteError", "UnboundInput", "TypeDisagree"] {
        if e.contains(k) {
            return k;
        }
    }
    "other error"
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(1, 3);
    let mut w = world(s, ctx, n)?;
    let defs = defs_of(&w.m);
    let tg = TxGen::new(&defs);
    let mut ents = tg.user_ents(&w.m);
    ents.push(1);
    let attrs: Vec<String> = defs.iter().map(|d| d.ident.clone()).collect();
    if attrs.is_empty() {
        return Ok(());
    }
    if s.chance(1, 3) {
        let a = s.pick(&attrs).clone();
        let d = *s.pick(&[CacheDirection::Forward, CacheDirection::Reverse, CacheDirection::Both]);
        ctx.note(format!("cache {} {:?}", a, d));
        w.store.cache(&keyword(&a), d).map_err(es)?;
        ctx.label("with a cache");
    }
    let mut values: Vec<V> = w.m.facts.keys().filter(|k| k.0 >= USER0 && k.0 < TX0).map(|k| k.2.clone()).collect();
    values.dedup();
    let m = w.m.clone();
    let g = G { m: &m, idents: m.idents.keys().cloned().collect(), attrs, ents, values, nv: s.size(2, 5), wild: *s.pick(&[0, 5, 15, 40]) };
    let before = dump(w.store.sqlite_mut())?;
    let db = Db::new(&m);
    let k = if tier.thorough { 20 } else { 10 };
    for _ in 0..k {
        let (text, types, values) = if s.chance(1, 4) {
            // A well-formed query, with a part replaced.
            let mut qg = QGen::new(&db, g.ents.clone());
            match qg.query(s, 1, 3) {
                Some(q) => {
                    let mut text = q.text();
                    let words: Vec<&str> = text.split(' ').collect();
                    let i = s.idx(words.len());
                    let bare = words[i].trim_matches(|c| "[]()".contains(c)).to_string();
                    if !bare.is_empty() && !bare.starts_with('"') && s.chance(4, 5) {
                        let by = match s.below(4) {
                            0 => g.literal(s),
                            1 => g.var(s),
                            2 => g.attr(s),
                            _ => g.value(s),
                        };
                        let new = words[i].replacen(&bare, &by, 1);
                        text = words.iter().enumerate().map(|(j, w)| if i == j { new.as_str() } else { *w }).collect::<Vec<_>>().join(" ");
                    }
                    (text, BTreeMap::new(), q.inputs.iter().map(|(x, v)| (Variable::from_valid_name(&default_name(*x)), v.clone())).collect())
                }
                None => continue,
            }
        } else {
            g.query(s)
        };
        ctx.note(format!("{} {:?} {:?}", text, types, values));
        let how = s.weighted(&[5, 1, 1]);
        if s.chance(1, 6) {
            let ip = w.store.begin_transaction().map_err(es)?;
            pose(&ip, &text, &types, &values, ctx, how)?;
            ctx.label("inside a transaction");
            ip.commit().map_err(es)?;
        } else {
            pose(&w.store, &text, &types, &values, ctx, how)?;
        }
        let parsed = edn::parse::parse_query(&text).is_ok();
        ctx.label(if parsed { "parsed" } else { "not parsed" });
        if parsed && text.matches(['[', '('].as_ref()).count() > 3 {
            ctx.nontrivial = true;
        }
    }
    let after = dump(w.store.sqlite_mut())?;
    if let Some(d) = diff_dump(&before, &after) {
        return Err(format!("queries changed the store: {}", d));
    }
    // The store goes on answering and accepting.
    let out = w.store.q_once("[:find ?v . :where [:db/ident :db/ident ?v]]", None).map_err(es)?;
    check!(rows_of(&out.results)? == vec![vec![V::kw(":db/ident")]], "a later query answers {:?}", out.results);
    w.store.transact("[[:db/add \"x\" :db/doc \"later\"]]").map_err(es)?;
    Ok(())
}

fn refuse(c: &mut Ctx, query: &str) -> CaseResult {
    c.nontrivial = true;
    let mut w = World::mem()?;
    w.store.transact("[{:db/ident :t/l :db/valueType :db.type/long :db/cardinality :db.cardinality/one} {:db/ident :t/r :db/valueType :db.type/ref :db/cardinality :db.cardinality/one}]").map_err(es)?;
    for how in 0..3 {
        pose(&w.store, query, &BTreeMap::new(), &BTreeMap::new(), c, how)?;
    }
    check!(w.store.q_once(query, None).is_err(), "{} is accepted", query);
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("a named source", |c| refuse(c, "[:find ?e :where [$x ?e :t/l]]")),
        ("a big integer as a value", |c| refuse(c, "[:find ?e :where (not [?e :t/l 99999999999999999999N])]")),
        ("a big integer in ground", |c| refuse(c, "[:find ?x :where [(ground 99999999999999999999N) ?x]]")),
        ("an or joined on a variable that an arm does not bind", |c| refuse(c, "[:find ?v :where (or-join [?v ?x] [?x :t/l ?v] (and [?v :t/l] [(type ?x :db.type/ref)]))]")),
        ("joined on more variables than are known", |c| {
            let mut w = World::mem()?;
            w.store.transact("[{:db/ident :t/l :db/valueType :db.type/long :db/cardinality :db.cardinality/one} {:db/ident :t/r :db/valueType :db.type/ref :db/cardinality :db.cardinality/one}]").map_err(es)?;
            for q in &["[:find ?a :where [?a _ ?c] (not-join [?a ?b ?c ?d ?e] [?a ?b ?c] [?d ?e ?a])]", "[:find ?a :in ?a :where (or-join [?a ?b ?c] [?a ?b ?c] [?b ?a ?c])]"] {
                for how in 0..3 {
                    pose(&w.store, q, &BTreeMap::new(), &[(Variable::from_valid_name("?a"), V::Ref(65536))].iter().cloned().collect(), c, how)?;
                }
            }
            c.nontrivial = true;
            Ok(())
        }),
    ]
}
