//! P14: pull returns exactly the stated attributes of the stated entities.

use crate::check;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::query::*;
use crate::vals::*;
use crate::world::*;
use mentat::{Binding, Pullable, QueryResults, Queryable, StructuredMap};
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "P14",
    rule: "Random stores with attributes of every type, cardinality and index. Direct pulls of lists of entities (with data, without, unknown, repeated; attributes and transactions too) and attributes (user, schema, non-attributes; none, some, all) through the store, a read transaction and an open write transaction holding uncommitted data; and pull expressions on ref variables of random queries, in relations, tuples, collections and scalars, beside variables and aggregates, with order and limit, with wildcards, aliases, :db/id and unknown attributes in any place. Every map is compared with the model's current facts (many-valued attributes as sets), and the rows with those of the same query without pull. Non-trivial: a direct pull or pulled row with at least two attributes that have values.",
    quick_cases: 4000,
    thorough_cases: 60000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &[
        "an attribute is named at most once in a pattern outside the wildcard, and aliases don't collide",
        "a direct pull may leave out entities without values or give them an empty map, and may refuse attributes that have no name; so may a pulled collection leave them out",
        "the plain query beside a pull is right (P10, P11)",
    ],
};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Pv {
    One(V),
    Many(BTreeSet<V>),
    Map(Map),
}
pub type Map = BTreeMap<String, Pv>;

pub fn map_of(m: &StructuredMap) -> Result<Map, String> {
    let mut out = Map::new();
    for (k, b) in m.0.iter() {
        out.insert(k.to_string(), pv_of(b)?);
    }
    Ok(out)
}

fn pv_of(b: &Binding) -> Result<Pv, String> {
    Ok(match b {
        Binding::Scalar(v) => Pv::One(V::of(v)),
        Binding::Vec(vs) => {
            let mut set = BTreeSet::new();
            for v in vs.iter() {
                match v {
                    Binding::Scalar(v) => check!(set.insert(V::of(v)), "a value is repeated in {:?}", b),
                    _ => return Err(format!("{:?} among the values of an attribute", v)),
                }
            }
            Pv::Many(set)
        }
        Binding::Map(m) => Pv::Map(map_of(m)?),
    })
}

#[derive(Clone, Debug)]
enum Spec {
    Star,
    Attr(String, Option<String>),
}

fn show_spec(p: &[Spec]) -> String {
    let v: Vec<String> = p
        .iter()
        .map(|x| match x {
            Spec::Star => "*".to_string(),
            Spec::Attr(i, None) => i.clone(),
            Spec::Attr(i, Some(a)) => format!("{} :as {}", i, a),
        })
        .collect();
    format!("[{}]", v.join(" "))
}

pub fn value_of(m: &Model, e: i64, a: i64) -> Option<Pv> {
    let attr = m.schema.get(&a)?;
    let vs = m.values(e, a);
    if vs.is_empty() {
        None
    } else if attr.many {
        Some(Pv::Many(vs.into_iter().collect()))
    } else {
        Some(Pv::One(vs[0].clone()))
    }
}

/// What a pattern gives for an entity.
fn expect(m: &Model, e: i64, p: &[Spec], names: &BTreeMap<i64, String>) -> Map {
    let mut out = Map::new();
    let mut named = BTreeSet::new();
    for x in p {
        if let Spec::Attr(i, alias) = x {
            let name = alias.clone().unwrap_or_else(|| i.clone());
            if i == ":db/id" {
                out.insert(name, Pv::One(V::Ref(e)));
            } else if let Some(a) = m.idents.get(i) {
                named.insert(*a);
                if let Some(v) = value_of(m, e, *a) {
                    out.insert(name, v);
                }
            }
        }
    }
    if p.iter().any(|x| matches!(x, Spec::Star)) {
        for a in m.schema.keys().filter(|a| !named.contains(a)) {
            if let Some(v) = value_of(m, e, *a) {
                out.insert(names[a].clone(), v);
            }
        }
    }
    out
}

fn names_of(m: &Model) -> BTreeMap<i64, String> {
    m.idents.iter().map(|(k, e)| (*e, k.clone())).collect()
}

fn entities(s: &mut Src, m: &Model, ents: &[i64]) -> Vec<i64> {
    let txs: Vec<i64> = m.log.keys().cloned().collect();
    let attrs: Vec<i64> = m.schema.keys().cloned().collect();
    let mut out = vec![];
    for _ in 0..s.size(0, 7) {
        out.push(match s.weighted(&[8, 1, 1, 1, 1]) {
            0 if !ents.is_empty() => *s.pick(ents),
            1 => *s.pick(&txs),
            2 => *s.pick(&attrs),
            3 => m.next_max + 100 + s.below(5) as i64,
            4 if !out.is_empty() => *s.pick(&out),
            _ => *s.pick(&txs),
        });
    }
    out
}

fn direct<P: Pullable>(st: &P, m: &Model, how: &'static str, s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let names = names_of(m);
    let ents = TxGen::new(&defs_of(m)).user_ents(m);
    let es = entities(s, m, &ents);
    let user: Vec<i64> = m.schema.keys().cloned().filter(|a| *a >= USER0).collect();
    let core: Vec<i64> = m.schema.keys().cloned().filter(|a| *a < USER0).collect();
    let mut attrs: Vec<i64> = vec![];
    match s.below(8) {
        0 => attrs = m.schema.keys().cloned().collect(),
        1 => {}
        _ => {
            for _ in 0..s.size(1, 5) {
                attrs.push(match s.weighted(&[8, 2, 1]) {
                    0 if !user.is_empty() => *s.pick(&user),
                    1 => *s.pick(&core),
                    _ if !ents.is_empty() && s.chance(1, 2) => *s.pick(&ents),
                    _ => *s.pick(&core),
                });
            }
        }
    }
    ctx.note(format!("pull ({}) {:?} of {:?}", how, attrs, es));
    let one = s.chance(1, 4) && !es.is_empty();
    let got: Result<BTreeMap<i64, Map>, String> = if one {
        match st.pull_attributes_for_entity(es[0], attrs.clone()) {
            Ok(m) => Ok(vec![(es[0], map_of(&m)?)].into_iter().collect()),
            Err(e) => Err(e.to_string()),
        }
    } else {
        match st.pull_attributes_for_entities(es.clone(), attrs.clone()) {
            Ok(ms) => {
                let mut out = BTreeMap::new();
                for (e, m) in ms {
                    out.insert(e, map_of(&m)?);
                }
                Ok(out)
            }
            Err(e) => Err(e.to_string()),
        }
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => {
            check!(attrs.iter().any(|a| !names.contains_key(a)), "{} pull of {:?} for {:?} failed: {}", how, attrs, es, e);
            ctx.label("unnamed attribute refused");
            return Ok(());
        }
    };
    let asked: BTreeSet<i64> = if one { vec![es[0]] } else { es.clone() }.into_iter().collect();
    for (e, map) in &got {
        check!(asked.contains(e), "{} pull for {:?} gave something for {}: {:?}", how, es, e, map);
    }
    for e in &asked {
        let mut want = Map::new();
        for a in &attrs {
            if let Some(v) = value_of(m, *e, *a) {
                want.insert(names[a].clone(), v);
            }
        }
        let none = Map::new();
        let g = got.get(e).unwrap_or(&none);
        check!(*g == want, "{} pull of {:?} for {:?} gave for {}: {:?} instead of {:?}", how, attrs, es, e, g, want);
        if want.len() > 1 {
            ctx.nontrivial = true;
        }
        if want.values().any(|v| matches!(v, Pv::Many(s) if s.len() > 1)) {
            ctx.label("several values of one attribute");
        }
        if want.is_empty() {
            ctx.label("entity without values");
        }
    }
    ctx.label(if one { "one entity" } else { "direct pull" });
    Ok(())
}

fn pattern(s: &mut Src, m: &Model) -> Vec<Spec> {
    let all: Vec<String> = m.idents.keys().cloned().collect();
    let user: Vec<String> = m.idents.iter().filter(|(_, e)| **e >= USER0 && m.schema.contains_key(e)).map(|(k, _)| k.clone()).collect();
    let aliases = [":x", ":n/alias", ":db/id2", ":k/other", ":name", ":y"];
    let mut used = BTreeSet::new();
    let mut seen = BTreeSet::new();
    let mut out = vec![];
    for _ in 0..s.size(1, 5) {
        let i = match s.weighted(&[6, 2, 1, 2, 1]) {
            0 if !user.is_empty() => s.pick(&user).clone(),
            1 => ":db/id".to_string(),
            2 => s.pick(&all).clone(),
            3 => {
                out.push(Spec::Star);
                continue;
            }
            _ => ":no/such".to_string(),
        };
        let e = m.idents.get(&i).cloned();
        if !seen.insert(i.clone()) || (e.is_some() && !used.insert(format!("{:?}", e))) {
            continue;
        }
        let alias = if s.chance(1, 3) { Some(s.pick(&aliases).to_string()) } else { None };
        let alias = alias.filter(|a| used.insert(a.clone()));
        out.push(Spec::Attr(i, alias));
    }
    out
}

/// The rows of an answer, pulled or not.
fn cells(r: &QueryResults) -> Result<Vec<Vec<Pv>>, String> {
    Ok(match r {
        QueryResults::Scalar(None) | QueryResults::Tuple(None) => vec![],
        QueryResults::Scalar(Some(b)) => vec![vec![pv_of(b)?]],
        QueryResults::Tuple(Some(bs)) => vec![bs.iter().map(pv_of).collect::<Result<_, _>>()?],
        QueryResults::Coll(bs) => bs.iter().map(|b| pv_of(b).map(|v| vec![v])).collect::<Result<_, _>>()?,
        QueryResults::Rel(rr) => {
            let mut out = vec![];
            for row in rr.rows() {
                out.push(row.iter().map(pv_of).collect::<Result<_, _>>()?);
            }
            out
        }
    })
}

/// `pulls` holds patterns by column; those beyond the last pull what an earlier column finds again.
fn again(q: &Query, i: usize) -> usize {
    let vars: Vec<usize> = (0..q.find.len()).filter(|j| matches!(q.find[*j], El::Var(_))).collect();
    vars[i % vars.len()]
}

fn with_pulls(q: &Query, pulls: &BTreeMap<usize, Vec<Spec>>) -> String {
    let text = q.text();
    let els: Vec<String> = q.find.iter().map(|e| Names(&default_name).el(e)).collect();
    let mut new: Vec<String> = els.iter().enumerate().map(|(i, t)| pulls.get(&i).map_or(t.clone(), |p| format!("(pull {} {})", t, show_spec(p)))).collect();
    for (i, p) in pulls.range(els.len()..) {
        new.push(format!("(pull {} {})", els[again(q, *i)], show_spec(p)));
    }
    text.replacen(&els.join(" "), &new.join(" "), 1)
}

fn in_query<Q: Queryable>(st: &Q, m: &Model, db: &Db, ents: &[i64], s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut qg = QGen::new(db, ents.to_vec());
    let mut q = match qg.query(s, 1, 3) {
        Some(q) => q,
        None => return Ok(()),
    };
    let refs: Vec<usize> = qg.bound.iter().cloned().filter(|x| qg.ty[*x] == bit(Vt::Ref)).collect();
    if refs.is_empty() || q.clash {
        return Ok(());
    }
    if !q.find_vars().iter().any(|x| refs.contains(x)) {
        let i = s.idx(q.find.len());
        q.find[i] = El::Var(*s.pick(&refs));
    }
    if s.chance(2, 3) {
        crate::p11::dress(s, &mut q, &qg);
    }
    if s.chance(1, 3) {
        // A total order.
        let p = s.permutation(q.find.len());
        q.order.clear();
        for i in p {
            if let El::Var(x) = q.find[i] {
                let asc = s.bool();
                q.order.push((x, asc));
            }
        }
    }
    if q.find.iter().any(|e| matches!(e, El::The(_)) || matches!(e, El::Agg(f, _) if *f == "sum" || *f == "avg")) {
        return Ok(());
    }
    let mut pulls = BTreeMap::new();
    for (i, e) in q.find.iter().enumerate() {
        if let El::Var(x) = e {
            if refs.contains(x) && (pulls.is_empty() || s.chance(2, 3)) {
                pulls.insert(i, pattern(s, m));
            }
        }
    }
    if s.chance(1, 5) && (q.shape == Shape::Rel || q.shape == Shape::Tuple) {
        let i = q.find.len() + s.idx(3);
        if (0..q.find.len()).any(|j| matches!(q.find[j], El::Var(_))) {
            if let El::Var(x) = q.find[again(&q, i)] {
                if refs.contains(&x) {
                    pulls.insert(i, pattern(s, m));
                    ctx.label("a variable pulled beside itself");
                }
            }
        }
    }
    if pulls.is_empty() || pulls.values().any(|p| p.is_empty()) {
        return Ok(());
    }
    check_pull(st, m, &q, &pulls, ctx)
}

fn check_pull<Q: Queryable>(st: &Q, m: &Model, q: &Query, pulls: &BTreeMap<usize, Vec<Spec>>, ctx: &mut Ctx) -> CaseResult {
    let text = with_pulls(q, pulls);
    ctx.note(text.clone());
    let mut raw = q.clone();
    raw.limit = None;
    raw.shape = Shape::Rel;
    let rows = match st.q_once(raw.text().as_str(), raw.inputs()).map_err(|e| e.to_string()).and_then(|r| cells(&r.results)) {
        Ok(r) => r,
        Err(_) => {
            ctx.label("skipped: refused without pull");
            return Ok(());
        }
    };
    let show: String = q.inputs.iter().map(|(x, v)| format!("  {}={}", default_name(*x), v)).collect();
    let names = names_of(m);
    let got = match st.q_once(text.as_str(), q.inputs()) {
        Ok(g) => g,
        Err(e) => {
            let star = pulls.values().any(|p| p.iter().any(|x| matches!(x, Spec::Star)));
            check!(star && m.schema.keys().any(|a| !names.contains_key(a)), "query {}{} failed: {}", text, show, e);
            ctx.label("unnamed attribute refused");
            return Ok(());
        }
    };
    check!(shape_of(&got.results) == q.shape, "query {} gave a {:?}", text, shape_of(&got.results));
    let got = cells(&got.results)?;
    let mut want: Vec<Vec<Pv>> = vec![];
    for r in &rows {
        let mut w = r.clone();
        for (i, p) in pulls {
            let from = if *i < r.len() { *i } else { again(q, *i) };
            let i = &std::cmp::min(*i, w.len());
            if *i == w.len() {
                w.push(r[from].clone());
            }
            w[*i] = match &r[from] {
                Pv::One(V::Ref(e)) => Pv::Map(expect(m, *e, p, &names)),
                _ => {
                    ctx.label("skipped: not an entity");
                    return Ok(());
                }
            };
        }
        want.push(w);
    }
    let plain: Vec<usize> = q
        .find
        .iter()
        .filter_map(|e| match e {
            El::Var(x) => Some(*x),
            _ => None,
        })
        .collect();
    let total = !q.order.is_empty() && q.order.iter().all(|(x, _)| plain.contains(x)) && plain.iter().all(|x| q.order.iter().any(|(y, _)| x == y));
    let limit = match (&q.shape, &q.limit) {
        (Shape::Tuple, _) | (Shape::Scalar, _) => 1,
        (_, Some(Limit::N(n))) => *n as usize,
        (_, Some(Limit::Var(x))) => match q.inputs.iter().find(|(y, _)| y == x) {
            Some((_, V::Long(n))) => *n as usize,
            _ => return Ok(()),
        },
        (_, None) => usize::max_value(),
    };
    let empty = |r: &Vec<Pv>| r.iter().all(|c| matches!(c, Pv::Map(m) if m.is_empty()));
    let n = std::cmp::min(limit, want.len());
    let mut wanted = want.clone();
    let mut given = got.clone();
    let mut len = n;
    if q.shape == Shape::Coll {
        // Empty maps may be left out.
        if total {
            wanted.truncate(n);
            wanted.retain(|r| !empty(r));
            given.retain(|r| !empty(r));
            len = wanted.len();
        } else if wanted.iter().any(&empty) {
            wanted.retain(|r| !empty(r));
            given.retain(|r| !empty(r));
            check!(given.len() <= n, "query {}{} gave {} rows of {}", text, show, given.len(), n);
            if limit < want.len() {
                len = given.len();
            } else {
                len = wanted.len();
            }
        }
    }
    check!(given.len() == len, "query {}{} gave {} rows instead of {}: {:?} of {:?}", text, show, given.len(), len, given, wanted);
    if total {
        for (i, (g, w)) in given.iter().zip(&wanted).enumerate() {
            check!(g == w, "query {}{} gave {:?} as row {} instead of {:?}", text, show, g, i, w);
        }
        ctx.label("totally ordered");
    } else {
        let mut left: Vec<&Vec<Pv>> = wanted.iter().collect();
        for g in &given {
            match left.iter().position(|w| *w == g) {
                Some(i) => {
                    left.swap_remove(i);
                }
                None => return Err(format!("query {}{} gave {:?}, which is not among {:?}", text, show, g, left)),
            }
        }
    }
    ctx.label(match q.shape {
        Shape::Rel => "pulled relation",
        Shape::Tuple => "pulled tuple",
        Shape::Coll => "pulled collection",
        Shape::Scalar => "pulled scalar",
    });
    if pulls.values().any(|p| p.iter().any(|x| matches!(x, Spec::Star))) {
        ctx.label("wildcard");
        if pulls.values().any(|p| p.len() > 1 && p.iter().any(|x| matches!(x, Spec::Star))) {
            ctx.label("wildcard beside attributes");
        }
    }
    if q.find.len() > plain.len() {
        ctx.label("pull beside an aggregate");
    }
    if pulls.len() > 1 {
        ctx.label("several pulls");
    }
    if limit < want.len() {
        ctx.label("limit that cuts");
    }
    if given.iter().flatten().any(|c| matches!(c, Pv::Map(m) if m.len() > 1)) {
        ctx.nontrivial = true;
    }
    if given.len() > 1 {
        ctx.label("several pulled rows");
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(2, 5);
    let mut w = world(s, ctx, n)?;
    let db = Db::new(&w.m);
    let ents = TxGen::new(&defs_of(&w.m)).user_ents(&w.m);
    for _ in 0..(if tier.thorough { 6 } else { 4 }) {
        direct(&w.store, &w.m, "store", s, ctx)?;
    }
    for _ in 0..(if tier.thorough { 8 } else { 6 }) {
        in_query(&w.store, &w.m, &db, &ents, s, ctx)?;
    }
    if s.chance(1, 3) {
        let m = w.m.clone();
        let r = w.store.begin_read().map_err(es)?;
        direct(&r, &m, "read", s, ctx)?;
        in_query(&r, &m, &db, &ents, s, ctx)?;
    }
    if s.chance(1, 2) {
        let mut m = w.m.clone();
        ctx.note("begin");
        {
            let mut ip = w.store.begin_transaction().map_err(es)?;
            let ok = !s.chance(1, 8);
            let t = evolving_tx(s, &m, 15, ok);
            transact_ip(&mut ip, &mut m, &t, ctx)?;
            let db = Db::new(&m);
            let ents = TxGen::new(&defs_of(&m)).user_ents(&m);
            direct(&ip, &m, "in progress", s, ctx)?;
            in_query(&ip, &m, &db, &ents, s, ctx)?;
            in_query(&ip, &m, &db, &ents, s, ctx)?;
            ctx.label("in an open transaction");
        }
        ctx.note("dropped");
        direct(&w.store, &w.m, "store", s, ctx)?;
    }
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("wildcard beside an alias and the id", |c| ask_pull(c, "[:find (pull ?e [:t/l :as :n/l * :db/id]) . :where [?e :t/s]]", vec![vec![(":n/l", Pv::One(V::Long(1))), (":t/s", Pv::Many(vec![V::s("a"), V::s("b")].into_iter().collect())), (":db/id", Pv::One(V::Ref(65538)))]])),
        ("collection in order", |c| ask_pull(c, "[:find [(pull ?e [:t/l]) ...] :where [?e :t/l ?v] :order (desc ?v)]", vec![vec![(":t/l", Pv::One(V::Long(2)))], vec![(":t/l", Pv::One(V::Long(1)))]])),
        ("collection in order, cut", |c| ask_pull(c, "[:find [(pull ?e [:t/l]) ...] :where [?e :t/l ?v] :order (desc ?v) :limit 1]", vec![vec![(":t/l", Pv::One(V::Long(2)))]])),
    ]
}

/// Ask a small store for maps.
fn ask_pull(ctx: &mut Ctx, text: &str, want: Vec<Vec<(&str, Pv)>>) -> CaseResult {
    let mut w = World::mem()?;
    w.install(&[crate::p01::def(":t/l", Vt::Long, false, None), crate::p01::def(":t/s", Vt::Str, true, None)], ctx)?;
    w.store.transact("[{:db/id \"x\" :t/l 1 :t/s [\"a\" \"b\"]} {:db/id \"y\" :t/l 2}]").map_err(es)?;
    ctx.note(text.to_string());
    let got = cells(&w.store.q_once(text, None).map_err(es)?.results)?;
    let want: Vec<Vec<Pv>> = want.into_iter().map(|m| vec![Pv::Map(m.into_iter().map(|(k, v)| (k.to_string(), v)).collect())]).collect();
    check!(got == want, "{} gave {:?} instead of {:?}", text, got, want);
    Ok(())
}
