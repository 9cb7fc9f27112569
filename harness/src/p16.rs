//! P16: values read back equal to values written.

use crate::check;
use crate::db;
use crate::ednval;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::vals::*;
use crate::world::*;
use mentat::{Binding, CacheDirection, QueryInputs, Queryable, QueryResults, TypedValue, Variable};
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "P16",
    rule: "Values of one to three of the eight types, from the whole range (64-bit longs, all doubles, arbitrary Unicode text with NULs, keywords, instants of any year to the microsecond and below, UUIDs, refs) and near variants of each, are transacted as EDN text or typed terms onto plain, indexed-many and unique attributes; facts, log, lookup, query columns, pull and the log functions must give them back, and every value (present or only near) used as a constant, as an input, through ground, as a lookup ref and against an unspecified attribute must match exactly the entities that have it, with and without caches and after reopening. Non-trivial: at least three distinct values of one type were stored and searched for.",
    quick_cases: 4000,
    thorough_cases: 100000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["longs and doubles compare numerically where the attribute is not known (documented: the two share a type tag)", "instants are stored to the microsecond, truncated (documented)"],
};

/// A value as written: EDN text, typed value and what is to be read back.
#[derive(Clone)]
pub struct W {
    pub v: V,
    edn: Option<String>,
    typed: TypedValue,
}

fn w(v: V) -> W {
    let edn = match &v {
        V::Dbl(d) if d.0.is_nan() => None,
        V::Inst(m) if *m < -62_167_219_200_000_000 || *m > 253_402_300_799_999_999 => None,
        v => Some(v.edn()),
    };
    W { edn, typed: v.typed(), v }
}

fn kw_text(s: &mut Src) -> String {
    let ns = ednval::namespace(s, false);
    let n = ednval::name(s, true);
    if s.chance(1, 6) { format!(":{}", n) } else { format!(":{}/{}", ns, n) }
}

pub fn wide(s: &mut Src, vt: Vt, ents: &[i64]) -> W {
    match vt {
        Vt::Long => w(V::Long(ednval::long(s))),
        Vt::Dbl => {
            let d = ednval::double(s);
            let d = if s.chance(1, 12) { *s.pick(&[std::f64::INFINITY, std::f64::NEG_INFINITY]) } else { d };
            w(V::Dbl(D(d)))
        }
        Vt::Bool => w(V::Bool(s.bool())),
        Vt::Str => w(V::Str(if s.chance(1, 3) { s.pick(&STRS[..]).to_string() } else { ednval::text(s) })),
        Vt::Kw => w(V::Kw(kw_text(s))),
        Vt::Inst => {
            if s.chance(1, 6) {
                // Nanoseconds are truncated.
                let i = ednval::inst_any(s);
                let v = V::Inst(micros(&i));
                return W { edn: Some(format!("#inst \"{}\"", i.format("%Y-%m-%dT%H:%M:%S%.9fZ"))), typed: i.into(), v };
            }
            if s.chance(1, 8) {
                // Beyond the years EDN can write.
                let m = s.u64() as i64 / 2;
                return w(V::Inst(m));
            }
            w(V::Inst(ednval::instant_micros(s)))
        }
        Vt::Uuid => w(V::Uuid(*ednval::uuid(s).as_bytes())),
        Vt::Ref => w(V::Ref(*s.pick(ents))),
    }
}

/// A value that differs a little.
pub fn near(s: &mut Src, x: &V, ents: &[i64]) -> W {
    w(match x {
        V::Long(l) => V::Long(match s.below(3) {
            0 => l.wrapping_add(1),
            1 => l.wrapping_neg(),
            _ => l ^ (1 << s.below(63)),
        }),
        V::Dbl(d) => V::Dbl(D(match s.below(3) {
            0 => {
                let f = f64::from_bits(d.0.to_bits().wrapping_add(1));
                if f.is_nan() { 0.0 } else { f }
            }
            1 => -d.0,
            _ => d.0.trunc(),
        })),
        V::Bool(b) => V::Bool(!b),
        V::Inst(m) => V::Inst(match s.below(4) {
            0 => m.saturating_add(1),
            1 => -m,
            2 => m - m.rem_euclid(1_000_000),
            _ => m - m.rem_euclid(1000),
        }),
        V::Str(t) => V::Str(match s.below(5) {
            0 => format!("{} ", t),
            1 => t.to_uppercase(),
            2 => t.to_lowercase(),
            3 => t.trim().to_string(),
            _ => t.replace('\u{0}', ""),
        }),
        V::Kw(k) => V::Kw(match s.below(3) {
            0 => format!("{}a", k),
            1 => format!(":a{}", &k[1..]),
            _ => k.to_lowercase(),
        }),
        V::Uuid(u) => {
            let mut u = *u;
            let i = s.idx(16);
            u[i] ^= 1 << s.below(8);
            V::Uuid(u)
        }
        V::Ref(_) => V::Ref(*s.pick(ents)),
    })
}

fn name(vt: Vt) -> &'static str {
    match vt {
        Vt::Ref => "ref",
        Vt::Bool => "bool",
        Vt::Inst => "inst",
        Vt::Long => "long",
        Vt::Dbl => "dbl",
        Vt::Str => "str",
        Vt::Kw => "kw",
        Vt::Uuid => "uuid",
    }
}

fn defs() -> Vec<AttrDef> {
    let mut out = vec![];
    for vt in ALL_VT.iter() {
        let mut a = Attr::new(*vt);
        out.push(AttrDef { ident: format!(":v/{}", name(*vt)), attr: a.clone() });
        a.many = true;
        a.index = true;
        out.push(AttrDef { ident: format!(":m/{}", name(*vt)), attr: a.clone() });
        a.many = false;
        a.unique = Some(Uniq::Identity);
        out.push(AttrDef { ident: format!(":u/{}", name(*vt)), attr: a });
    }
    out
}

fn rel(q: QueryResults) -> Result<Vec<Vec<V>>, String> {
    match q {
        QueryResults::Rel(r) => r
            .into_iter()
            .map(|row| {
                row.into_iter()
                    .map(|b| match b {
                        Binding::Scalar(tv) => Ok(V::of(&tv)),
                        b => Err(format!("non-scalar {:?}", b)),
                    })
                    .collect()
            })
            .collect(),
        r => Err(format!("not a relation: {:?}", r)),
    }
}

fn ids<Q: Queryable>(q: &Q, text: &str, inputs: Option<QueryInputs>) -> Result<BTreeSet<i64>, String> {
    let out = match inputs {
        None => q.q_once(text, None),
        Some(i) => q.q_once(text, i),
    };
    let out = out.map_err(|e| format!("query {} failed: {}", text, e))?;
    match out.results {
        QueryResults::Coll(vs) => {
            let n = vs.len();
            let set: BTreeSet<i64> = vs
                .into_iter()
                .map(|b| match b {
                    Binding::Scalar(TypedValue::Ref(e)) => Ok(e),
                    b => Err(format!("query {} returned {:?}", text, b)),
                })
                .collect::<Result<_, String>>()?;
            check!(set.len() == n, "query {} returned an entity twice", text);
            Ok(set)
        }
        r => Err(format!("query {} returned {:?}", text, r)),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let file = s.chance(1, 12);
    let path = if file { ctx.dir().join("v.db").to_str().unwrap().to_string() } else { String::new() };
    let mut wd = World::open(&path)?;
    let defs = defs();
    wd.install(&defs, &mut Ctx::default())?;
    let t = Ent::add(Ep::Temp("x".into()), ":db/ident", Vp::Val(V::kw(":e/one")));
    let t2 = Ent::add(Ep::Temp("y".into()), ":db/doc", Vp::Val(V::kw(":e/one")));
    let _ = t2;
    wd.transact(&[t])?;
    // Entities to hold values and be referred to.
    let n_ents = 8i64;
    let mk: Vec<Ent> = (0..n_ents).map(|i| Ent::add(Ep::Temp(format!("h{}", i)), ":db/doc", Vp::Val(V::Str(format!("holder {}", i))))).collect();
    wd.transact(&mk)?;
    let hold: Vec<i64> = (wd.m.next_user - n_ents..wd.m.next_user).collect();
    let mut refs = hold.clone();
    refs.extend(&[0, 1, 37, wd.m.idents[":e/one"], wd.m.idents[":v/long"], TX0, TX0 + 1]);
    let ntypes = s.size(1, 3);
    let mut types = vec![];
    for _ in 0..ntypes {
        let vt = *s.pick(&ALL_VT);
        if !types.contains(&vt) {
            types.push(vt);
        }
    }
    let mut pool: BTreeMap<Vt, Vec<W>> = BTreeMap::new();
    for vt in &types {
        let n = s.size(2, if tier.thorough { 8 } else { 5 });
        let mut vs: Vec<W> = vec![];
        for _ in 0..n {
            let x = if !vs.is_empty() && s.bool() { let b = s.pick(&vs).v.clone(); near(s, &b, &refs) } else { wide(s, *vt, &refs) };
            ctx.note(format!("value {:?} {:?}", x.typed, x.edn));
            vs.push(x);
        }
        pool.insert(*vt, vs);
    }
    let mut m = wd.m.facts.clone();
    // Writes, one at a time or several per transaction, as text or as typed terms.
    let mut caches = s.chance(1, 3);
    let nw = s.size(6, 20);
    for i in 0..nw {
        if caches && i == 2 {
            for vt in &types {
                for p in &["v", "m", "u"] {
                    let k = mentat::Keyword::namespaced(*p, name(*vt));
                    let d = match s.below(3) {
                        0 => CacheDirection::Forward,
                        1 => CacheDirection::Reverse,
                        _ => CacheDirection::Both,
                    };
                    wd.store.cache(&k, d).map_err(es)?;
                }
            }
            ctx.label("cached");
            ctx.note("cached");
        }
        let vt = *s.pick(&types);
        let x = s.pick(&pool[&vt]).clone();
        let e = *s.pick(&hold);
        let kind = s.below(3);
        let ident = format!(":{}/{}", ["v", "m", "u"][kind as usize], name(vt));
        let a = wd.m.idents[&ident];
        // What must happen.
        let have: Vec<V> = m.keys().filter(|(e2, a2, _)| *e2 == e && *a2 == a).map(|(_, _, v)| v.clone()).collect();
        let owner: Option<i64> = m.keys().find(|(_, a2, v)| *a2 == a && *v == x.v).map(|(e, _, _)| *e);
        let retract = have.contains(&x.v) && s.chance(1, 4);
        let by_text = x.edn.is_some() && s.chance(2, 3);
        let op = if retract { "retract" } else { "add" };
        ctx.note(format!("{} [:db/{} {} {} {}]", if by_text { "text" } else { "typed" }, op, e, ident, x.v));
        let r = if by_text {
            wd.store.transact(format!("[[:db/{} {} {} {}]]", op, e, ident, x.edn.as_ref().unwrap()).as_str())
        } else {
            use mentat::entity_builder::{BuildTerms, TermBuilder};
            let mut b = TermBuilder::new();
            let k = mentat::Keyword::namespaced(["v", "m", "u"][kind as usize], name(vt));
            let a = wd.store.conn().current_schema().ident_map.get(&k).cloned().unwrap();
            let res = if retract { b.retract(core_traits::KnownEntid(e), core_traits::KnownEntid(a), x.typed.clone()) } else { b.add(core_traits::KnownEntid(e), core_traits::KnownEntid(a), x.typed.clone()) };
            res.map_err(es)?;
            let (terms, _) = b.build().map_err(es)?;
            let mut ip = wd.store.begin_transaction().map_err(es)?;
            let r = ip.transact_entities(terms);
            match r {
                Ok(r) => {
                    ip.commit().map_err(es)?;
                    Ok(r)
                }
                Err(e) => Err(e),
            }
        };
        let conflict = !retract && kind == 2 && owner.map_or(false, |o| o != e);
        match r {
            Ok(_) => {
                check!(!conflict, "{} of unique {} accepted for {} though {} has it", x.v, ident, e, owner.unwrap());
                if retract {
                    m.remove(&(e, a, x.v.clone()));
                } else if !have.contains(&x.v) {
                    if kind != 1 {
                        for v in have {
                            m.remove(&(e, a, v));
                        }
                    }
                    m.insert((e, a, x.v.clone()), 0);
                }
            }
            Err(err) => {
                check!(conflict, "{} of {} refused: {}", op, x.v, err);
                ctx.label("unique conflict");
            }
        }
    }
    // The facts and the log.
    let facts = db::read_facts(wd.store.sqlite_mut())?;
    let strip = |f: &BTreeMap<(i64, i64, V), i64>| -> BTreeSet<(i64, i64, V)> { f.keys().filter(|(e, a, _)| hold.contains(e) && *a > 100).cloned().collect() };
    let (want, got) = (strip(&m), strip(&facts));
    if let Some(d) = db::diff_sets(&want, &got) {
        return Err(format!("stored facts: {}", d));
    }
    let log = db::read_log(wd.store.sqlite_mut(), &BTreeSet::new())?;
    let mut folded: BTreeSet<(i64, i64, V)> = BTreeSet::new();
    for (_, es) in &log {
        for (e, a, v, added) in es {
            if !added {
                check!(folded.remove(&(*e, *a, v.clone())), "the log retracts a value not there: [{} {} {}]", e, a, v);
            }
        }
        for (e, a, v, added) in es {
            if *added {
                folded.insert((*e, *a, v.clone()));
            }
        }
    }
    let folded: BTreeSet<_> = folded.into_iter().filter(|(e, a, _)| hold.contains(e) && *a > 100).collect();
    if let Some(d) = db::diff_sets(&want, &folded) {
        return Err(format!("the log replays to other values: {}", d));
    }
    if file {
        drop(wd);
        wd = World::open(&path)?;
        caches = false;
        ctx.label("reopened");
        ctx.note("reopened");
    }
    let by = |a: i64| -> BTreeMap<V, BTreeSet<i64>> {
        let mut o: BTreeMap<V, BTreeSet<i64>> = BTreeMap::new();
        for (e, a2, v) in &want {
            if *a2 == a {
                o.entry(v.clone()).or_default().insert(*e);
            }
        }
        o
    };
    for vt in &types {
        let mut probes = pool[vt].clone();
        for _ in 0..2 {
            let b = s.pick(&pool[vt]).v.clone();
            probes.push(near(s, &b, &refs));
        }
        for (k, p) in ["v", "m", "u"].iter().enumerate() {
            let ident = format!(":{}/{}", p, name(*vt));
            let kw = mentat::Keyword::namespaced(*p, name(*vt));
            let a = wd.m.idents[&ident];
            let have = by(a);
            // Columns.
            let text = format!("[:find ?e ?v :where [?e {} ?v]]", ident);
            let rows = rel(wd.store.q_once(text.as_str(), None).map_err(|e| format!("{} failed: {}", text, e))?.results)?;
            let rows: BTreeSet<(i64, i64, V)> = rows.into_iter().map(|r| if let V::Ref(e) = r[0] { (e, a, r[1].clone()) } else { (0, 0, r[1].clone()) }).collect();
            let w2: BTreeSet<(i64, i64, V)> = want.iter().filter(|(_, a2, _)| *a2 == a).cloned().collect();
            if let Some(d) = db::diff_sets(&w2, &rows.into_iter().filter(|(e, _, _)| hold.contains(e)).collect()) {
                return Err(format!("{}: {}", text, d));
            }
            // Lookup and pull.
            for e in &hold {
                let vals: BTreeSet<V> = want.iter().filter(|(e2, a2, _)| e2 == e && *a2 == a).map(|(_, _, v)| v.clone()).collect();
                let l = wd.store.lookup_values_for_attribute(*e, &kw).map_err(|x| format!("lookup_values {} {}: {}", e, ident, x))?;
                let l: BTreeSet<V> = l.iter().map(V::of).collect();
                check!(l == vals, "lookup_values_for_attribute({}, {}) is {:?}, not {:?}", e, ident, l, vals);
                let one = wd.store.lookup_value_for_attribute(*e, &kw).map_err(|x| format!("lookup_value {} {}: {}", e, ident, x))?;
                check!(one.as_ref().map_or(vals.is_empty(), |o| vals.contains(&V::of(o))), "lookup_value_for_attribute({}, {}) is {:?}, not among {:?}", e, ident, one, vals);
            }
            {
                use mentat::Pullable;
                let br = wd.store.begin_read().map_err(es)?;
                let pulled = br.pull_attributes_for_entities(hold.clone(), vec![a]).map_err(es)?;
                let mut p: BTreeSet<(i64, i64, V)> = BTreeSet::new();
                for (e, map) in pulled.iter() {
                    for (_, b) in map.0.iter() {
                        match b {
                            Binding::Scalar(tv) => {
                                p.insert((*e, a, V::of(tv)));
                            }
                            Binding::Vec(bs) => {
                                for b in bs.iter() {
                                    if let Binding::Scalar(tv) = b {
                                        p.insert((*e, a, V::of(tv)));
                                    }
                                }
                            }
                            b => return Err(format!("pull gives {:?}", b)),
                        }
                    }
                }
                if let Some(d) = db::diff_sets(&w2, &p) {
                    return Err(format!("pull of {}: {}", ident, d));
                }
            }
            if have.len() >= 3 {
                ctx.nontrivial = true;
            }
            // Searches.
            for x in &probes {
                let empty = BTreeSet::new();
                let w2 = have.get(&x.v).unwrap_or(&empty);
                let checkq = |got: BTreeSet<i64>, how: &str| -> CaseResult {
                    let got: BTreeSet<i64> = got.into_iter().filter(|e| hold.contains(e)).collect();
                    check!(got == *w2, "{} {} on {} finds {:?}, {:?} have it", how, x.v, ident, got, w2);
                    Ok(())
                };
                if let Some(edn) = &x.edn {
                    checkq(ids(&wd.store, &format!("[:find [?e ...] :where [?e {} {}]]", ident, edn), None)?, "the constant")?;
                    // A bare integer through `ground` is a long unless the type is known.
                    let ann = format!("[(type ?v {})]", vt.ident());
                    checkq(ids(&wd.store, &format!("[:find [?e ...] :where {} [(ground {}) ?v] [?e {} ?v]]", ann, edn, ident), None)?, "ground")?;
                }
                let inp = QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?v"), x.typed.clone())]);
                checkq(ids(&wd.store, &format!("[:find [?e ...] :in ?v :where [?e {} ?v]]", ident), Some(inp))?, "the input")?;
                // Against any attribute.
                if *vt != Vt::Ref {
                    let all: BTreeSet<i64> = facts
                        .keys()
                        .filter(|(_, _, v)| match (v, &x.v) {
                            (V::Long(l), V::Dbl(d)) => num_eq(*l, d.0),
                            (V::Dbl(d), V::Long(l)) => num_eq(*l, d.0),
                            (a, b) => a == b,
                        })
                        .map(|(e, _, _)| *e)
                        .filter(|e| hold.contains(e))
                        .collect();
                    let inp = QueryInputs::with_value_sequence(vec![(Variable::from_valid_name("?v"), x.typed.clone())]);
                    let got: BTreeSet<i64> = ids(&wd.store, "[:find [?e ...] :in ?v :where [?e _ ?v]]", Some(inp))?.into_iter().filter(|e| hold.contains(e)).collect();
                    check!(got == all, "{} on any attribute finds {:?}, {:?} have it", x.v, got, all);
                }
                // As a lookup ref.
                if k == 2 {
                    if let Some(edn) = &x.edn {
                        let mut ip = wd.store.begin_transaction().map_err(es)?;
                        let r = ip.transact(format!("[[:db/add (lookup-ref {} {}) :db/doc \"found by lookup\"]]", ident, edn).as_str());
                        match (r, w2.iter().next()) {
                            (Ok(_), Some(e)) => {
                                let v = ip.lookup_value_for_attribute(*e, &mentat::Keyword::namespaced("db", "doc")).map_err(es)?;
                                check!(v == Some(TypedValue::typed_string("found by lookup")), "lookup-ref {} {} resolved to another entity than {}", ident, edn, e);
                            }
                            (Err(_), None) => {}
                            (Ok(_), None) => {
                                // A ref value may be held by entities outside.
                                return Err(format!("lookup-ref {} {} resolved though no entity has that value", ident, edn));
                            }
                            (Err(x), Some(e)) => return Err(format!("lookup-ref {} {} failed though {} has that value: {}", ident, edn, e, x)),
                        }
                        ip.rollback().map_err(es)?;
                    }
                }
            }
        }
    }
    // The log functions.
    let last = wd.store.last_tx_id();
    for tx in (TX0 + 3)..=last {
        let text = format!("[:find ?e ?a ?v ?added :where [(tx-data $ {}) [[?e ?a ?v _ ?added]]]]", tx);
        let rows = rel(wd.store.q_once(text.as_str(), None).map_err(|e| format!("{} failed: {}", text, e))?.results)?;
        let got: BTreeSet<Vec<V>> = rows.into_iter().collect();
        let w2: BTreeSet<Vec<V>> = log.get(&tx).map(|es| es.iter().map(|(e, a, v, d)| vec![V::Ref(*e), V::Ref(*a), v.clone(), V::Bool(*d)]).collect()).unwrap_or_default();
        if let Some(d) = db::diff_sets(&w2, &got) {
            return Err(format!("tx-data of {}: {}", tx, d));
        }
    }
    let _ = caches;
    let _ = coll::<mentat::Store>;
    Ok(())
}

fn num_eq(l: i64, d: f64) -> bool {
    d.trunc() == d && d >= -9.3e18 && d <= 9.3e18 && (d as i128) == l as i128
}

fn one(vt: Vt, v: V, edn: &str, cached: bool) -> CaseResult {
    let mut wd = World::mem()?;
    wd.install(&defs(), &mut Ctx::default())?;
    wd.transact(&[Ent::add(Ep::Temp("x".into()), ":db/doc", Vp::Val(V::s("x")))])?;
    let e = wd.m.next_user - 1;
    let ident = format!(":m/{}", name(vt));
    if cached {
        wd.store.cache(&mentat::Keyword::namespaced("m", name(vt)), CacheDirection::Both).map_err(es)?;
    }
    wd.store.transact(format!("[[:db/add {} {} {}]]", e, ident, edn).as_str()).map_err(es)?;
    let got = coll(&wd.store, &format!("[:find [?v ...] :where [_ {} ?v]]", ident))?;
    check!(got == vec![v.clone()], "{} reads back as {:?}", edn, got);
    let got = ids(&wd.store, &format!("[:find [?e ...] :where [?e {} {}]]", ident, edn), None)?;
    check!(got.len() == 1, "{} as a constant finds {:?}", edn, got);
    wd.store.transact(format!("[[:db/add {} {} {}]]", e, ident, edn).as_str()).map_err(es)?;
    let facts = db::read_facts(wd.store.sqlite_mut())?;
    check!(facts.keys().filter(|(_, _, x)| *x == v).count() == 1, "{} stored twice", edn);
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("nil uuid", |_| one(Vt::Uuid, V::Uuid([0; 16]), "#uuid \"00000000-0000-0000-0000-000000000000\"", false)),
        ("instant before 1970", |_| one(Vt::Inst, V::Inst(-1), "#inst \"1969-12-31T23:59:59.999999Z\"", false)),
        ("plain keyword", |_| one(Vt::Kw, V::kw(":plain"), ":plain", false)),
        ("infinity", |_| one(Vt::Dbl, V::Dbl(D(std::f64::INFINITY)), "#f +Infinity", false)),
        ("nanoseconds and caches", |_| one(Vt::Inst, V::Inst(0), "#inst \"1970-01-01T00:00:00.000000999Z\"", true)),
        ("doubles of many digits", |_| one(Vt::Dbl, V::Dbl(D(-5.233663257290623e-306)), "-5.233663257290623e-306", false)),
    ]
}
