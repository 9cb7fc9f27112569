//! P07: order and names do not matter.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p01::def;
use crate::vals::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "P07",
    rule: "A store holding a random graph of entities tied together by unique-identity attributes (long, string, keyword, ref of either cardinality) and transactions that name existing entities by tempids through chains of those attributes, mixed with new entities, re-assertions, replacements, retractions, lookup refs and conflicting identifications. Each transaction is run in several variants inside a transaction that is then abandoned: entities permuted, tempids renamed injectively, maps split into additions, additions of one entity gathered into a map, vectors split; all variants must be accepted or rejected alike and give the same facts up to the numbering of new entities as the transaction as first written, which is then committed. Non-trivial: a transaction of at least three entities that resolves a tempid to an existing entity, accepted or refused for a conflict, in at least three distinct variants.",
    quick_cases: 9000,
    thorough_cases: 60000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["the set of facts expected of every variant is computed by the reference model from the transaction as first written; all variants are also compared through it with one another"],
};

fn schema(s: &mut Src) -> Vec<AttrDef> {
    let mut v = vec![
        def(":t/i", Vt::Long, s.chance(1, 4), Some(Uniq::Identity)),
        def(":t/j", Vt::Ref, s.chance(1, 3), Some(Uniq::Identity)),
        def(":t/s", Vt::Str, s.bool(), Some(Uniq::Identity)),
        def(":t/r", Vt::Ref, s.bool(), None),
        def(":t/n", Vt::Long, s.bool(), None),
        def(":t/v", Vt::Ref, false, Some(Uniq::Value)),
    ];
    if s.bool() {
        v.push(def(":t/h", Vt::Ref, false, Some(Uniq::Identity)));
    }
    if s.bool() {
        v.push(def(":t/k", Vt::Kw, true, Some(Uniq::Identity)));
    }
    v[3].attr.component = s.bool();
    v
}

fn temp(i: usize) -> String {
    format!("n{}", i)
}

/// A first transaction: entities tied into chains.
fn seed_tx(s: &mut Src, defs: &[AttrDef]) -> Vec<Ent> {
    let n = s.size(2, 6);
    let mut out = vec![];
    for i in 0..n {
        for d in defs {
            if d.attr.unique != Some(Uniq::Identity) || !s.chance(1, 2) {
                continue;
            }
            let v = if d.attr.vt == Vt::Ref { Vp::Temp(temp(s.idx(n))) } else { Vp::Val(small_value(s, d.attr.vt, &[])) };
            out.push(Ent::add(Ep::Temp(temp(i)), &d.ident, v));
        }
    }
    out
}

/// A transaction that names entities of the store by their identifying facts.
fn chain_tx(s: &mut Src, m: &Model, defs: &[AttrDef]) -> Vec<Ent> {
    let idattrs: BTreeSet<i64> = defs.iter().filter(|d| d.attr.unique == Some(Uniq::Identity)).map(|d| m.idents[&d.ident]).collect();
    let facts: Vec<(i64, i64, V)> = m.facts.keys().filter(|(_, a, _)| idattrs.contains(a)).cloned().collect();
    if facts.is_empty() {
        return vec![];
    }
    let mut names: BTreeMap<i64, Vec<String>> = BTreeMap::new();
    let mut n = 0;
    let mut name = |s: &mut Src, names: &mut BTreeMap<i64, Vec<String>>, e: i64| -> String {
        let v = names.entry(e).or_insert_with(Vec::new);
        if v.is_empty() || s.chance(1, 8) {
            v.push(temp(n));
            n += 1;
        }
        s.pick(&v[..]).clone()
    };
    let mut out: Vec<Ent> = vec![];
    for _ in 0..s.size(1, 3) {
        let mut e = s.pick(&facts[..]).0;
        // Walk along the identifying references.
        for _ in 0..s.size(1, 5) {
            let mine: Vec<&(i64, i64, V)> = facts.iter().filter(|f| f.0 == e).collect();
            if mine.is_empty() {
                break;
            }
            let f = (*s.pick(&mine)).clone();
            let t = name(s, &mut names, e);
            let (v, next) = match &f.2 {
                V::Ref(r) if s.chance(4, 5) => (Vp::Temp(name(s, &mut names, *r)), Some(*r)),
                v => (Vp::Val(v.clone()), None),
            };
            let ent = Ent::List(true, Ep::Temp(t), ARef { name: AName::Id(f.1), rev: false }, v);
            if !out.contains(&ent) {
                out.push(ent);
            }
            match next {
                Some(r) => e = r,
                None => break,
            }
        }
    }
    // Facts about these and about new entities.
    let mut temps: Vec<String> = names.values().flatten().cloned().collect();
    temps.push(temp(20));
    temps.push(temp(21));
    for _ in 0..s.size(0, 5) {
        let d = s.pick(defs);
        let many: Vec<i64> = names.keys().cloned().collect();
        let v = if d.attr.vt == Vt::Ref {
            if s.bool() {
                Vp::Temp(s.pick(&temps[..]).clone())
            } else {
                Vp::Val(V::Ref(*s.pick(&many[..])))
            }
        } else {
            Vp::Val(small_value(s, d.attr.vt, &[]))
        };
        out.push(Ent::List(!s.chance(1, 10), Ep::Temp(s.pick(&temps[..]).clone()), ARef::id(&d.ident), v));
    }
    out
}

type Ren = BTreeMap<String, String>;

fn ren_e(e: &Ep, r: &Ren) -> Ep {
    match e {
        Ep::Temp(t) => Ep::Temp(r[t].clone()),
        e => e.clone(),
    }
}

fn ren_v(v: &Vp, r: &Ren) -> Vp {
    match v {
        Vp::Temp(t) => Vp::Temp(r[t].clone()),
        Vp::Vec(vs) => Vp::Vec(vs.iter().map(|v| ren_v(v, r)).collect()),
        Vp::Map(id, kvs) => Vp::Map(id.as_ref().map(|e| ren_e(e, r)), kvs.iter().map(|(k, v)| (k.clone(), ren_v(v, r))).collect()),
        v => v.clone(),
    }
}

pub fn rename(t: &[Ent], r: &Ren) -> Vec<Ent> {
    t.iter()
        .map(|e| match e {
            Ent::List(op, e, a, v) => Ent::List(*op, ren_e(e, r), a.clone(), ren_v(v, r)),
            Ent::Map(id, kvs) => Ent::Map(id.as_ref().map(|e| ren_e(e, r)), kvs.iter().map(|(k, v)| (k.clone(), ren_v(v, r))).collect()),
        })
        .collect()
}

/// A string where a reference is wanted is a tempid: write it as one.
fn norm_v(m: &Model, a: &ARef, v: &Vp) -> Vp {
    let id = match &a.name {
        AName::Id(i) => Some(*i),
        AName::Ident(s) => m.idents.get(s).cloned(),
    };
    let is_ref = a.rev || id.and_then(|i| m.schema.get(&i)).map_or(false, |x| x.vt == Vt::Ref);
    match v {
        Vp::Val(V::Str(t)) if is_ref => Vp::Temp(t.clone()),
        Vp::Vec(vs) => Vp::Vec(vs.iter().map(|v| norm_v(m, a, v)).collect()),
        Vp::Map(id, kvs) => Vp::Map(id.clone(), kvs.iter().map(|(k, v)| (k.clone(), norm_v(m, k, v))).collect()),
        v => v.clone(),
    }
}

pub fn normal(m: &Model, t: &[Ent]) -> Vec<Ent> {
    t.iter()
        .map(|e| match e {
            Ent::List(op, e, a, v) => Ent::List(*op, e.clone(), a.clone(), norm_v(m, a, v)),
            Ent::Map(id, kvs) => Ent::Map(id.clone(), kvs.iter().map(|(k, v)| (k.clone(), norm_v(m, k, v))).collect()),
        })
        .collect()
}

fn temps_v(v: &Vp, out: &mut BTreeSet<String>) {
    match v {
        Vp::Temp(t) => {
            out.insert(t.clone());
        }
        Vp::Vec(vs) => vs.iter().for_each(|v| temps_v(v, out)),
        Vp::Map(id, kvs) => {
            if let Some(Ep::Temp(t)) = id {
                out.insert(t.clone());
            }
            kvs.iter().for_each(|(_, v)| temps_v(v, out));
        }
        _ => (),
    }
}

pub fn temps(t: &[Ent]) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    for e in t {
        match e {
            Ent::List(_, e, _, v) => {
                if let Ep::Temp(t) = e {
                    out.insert(t.clone());
                }
                temps_v(v, &mut out);
            }
            Ent::Map(id, kvs) => temps_v(&Vp::Map(id.clone(), kvs.clone()), &mut out),
        }
    }
    out
}

/// Does the transaction hold a number that is about to be allocated (or, in `run`, does the store)?  Which of its tempids gets that
/// id depends on their names.
fn names_new_ids(m: &Model, t: &[Ent]) -> bool {
    tx_edn(t)
        .split(|c: char| !c.is_ascii_digit())
        .filter_map(|x| x.parse::<i64>().ok())
        .any(|n| n >= m.next_user && n < m.next_max + 100)
}

const NEW_NAMES: [&str; 16] = ["A", "z", "0", "10", "9", "zz", "tempid", "a b", "é", "-1", "n1", "n0", "n2", "db", ":k", "\"q\""];

fn renaming(s: &mut Src, t: &[Ent]) -> Ren {
    let names = temps(t);
    let p = s.permutation(NEW_NAMES.len());
    let mut out = BTreeMap::new();
    for (i, n) in names.into_iter().enumerate() {
        let x = match p.get(i) {
            Some(k) => NEW_NAMES[*k].to_string(),
            None => format!("x{}", i),
        };
        out.insert(n, x);
    }
    out
}

/// The id of a map must be allocated; the same number in a reversed addition is a value, and need
/// not be.
fn value_only(m: &Model, id: &Ep, a: &ARef) -> bool {
    match id {
        Ep::Id(n) => a.rev && !m.allocated(*n),
        _ => false,
    }
}

/// Split some maps and vectors into additions.
pub fn split(s: &mut Src, m: &Model, t: &[Ent], all: bool) -> Vec<Ent> {
    let mut out = vec![];
    for e in t {
        match e {
            Ent::Map(Some(id), kvs) if !kvs.iter().any(|(k, _)| value_only(m, id, k)) && (all || s.chance(2, 3)) && !kvs.is_empty() && kvs.iter().all(|(_, v)| if let Vp::Vec(v) = v { !v.is_empty() } else { true }) => {
                for (k, v) in kvs {
                    match v {
                        Vp::Vec(vs) if !k.rev => vs.iter().for_each(|v| out.push(Ent::List(true, id.clone(), k.clone(), v.clone()))),
                        v => out.push(Ent::List(true, id.clone(), k.clone(), v.clone())),
                    }
                }
            }
            Ent::List(true, id, a, Vp::Vec(vs)) if (all || s.chance(2, 3)) && !vs.is_empty() && !a.rev => {
                vs.iter().for_each(|v| out.push(Ent::List(true, id.clone(), a.clone(), v.clone())));
            }
            e => out.push(e.clone()),
        }
    }
    out
}

/// Gather additions of one entity into a map.
fn merge(s: &mut Src, m: &Model, t: &[Ent]) -> Vec<Ent> {
    let mut out: Vec<Ent> = vec![];
    let mut maps: Vec<(Ep, Vec<(ARef, Vp)>)> = vec![];
    for e in t {
        match e {
            Ent::List(true, id, a, v) if !value_only(m, id, a) && s.chance(4, 5) => {
                let slot = maps.iter().position(|(i, kvs)| i == id && !kvs.iter().any(|(k, _)| k.edn() == a.edn()));
                match slot {
                    Some(k) => maps[k].1.push((a.clone(), v.clone())),
                    None => maps.push((id.clone(), vec![(a.clone(), v.clone())])),
                }
            }
            e => out.push(e.clone()),
        }
    }
    for (id, kvs) in maps {
        out.push(Ent::Map(Some(id), kvs));
    }
    out
}

fn shuffle(s: &mut Src, t: &[Ent]) -> Vec<Ent> {
    s.permutation(t.len())
        .into_iter()
        .map(|i| match &t[i] {
            Ent::Map(id, kvs) => {
                let p = s.permutation(kvs.len());
                Ent::Map(id.clone(), p.into_iter().map(|k| kvs[k].clone()).collect())
            }
            e => e.clone(),
        })
        .collect()
}

/// Run a variant in a transaction that is abandoned; `ef` is what the model makes of the original.
fn variant(w: &mut World, plan: &Result<Effect, String>, v: &[Ent], r: &Ren, ctx: &mut Ctx) -> CaseResult {
    let text = tx_edn(v);
    ctx.note(format!("  variant {}", text));
    let mut ip = w.store.begin_transaction().map_err(es)?;
    let real = ip.transact(text.as_str());
    match (plan, real) {
        (Ok(ef), Ok(rep)) => {
            let facts = db::read_facts(&ip.transaction)?;
            let mut ef = ef.clone();
            ef.tempids = ef.tempids.iter().map(|(k, v)| (r[k].clone(), *v)).collect();
            let mut m = w.m.clone();
            reconcile(&mut m, ef, &rep.tempids, rep.tx_id, micros(&rep.tx_instant), &facts).map_err(|e| format!("a variant of a transaction has another effect: {}", e))?;
            Ok(())
        }
        (Err(_), Err(_)) => Ok(()),
        (Ok(_), Err(e)) => Err(format!("a variant is rejected ('{}') although the transaction is acceptable:\n{}", e, text)),
        (Err(why), Ok(_)) => Err(format!("a variant is accepted although the transaction is not ({}):\n{}", why, text)),
    }
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = World::mem()?;
    let defs = schema(s);
    w.install(&defs, ctx)?;
    let first = reduce(seed_tx(s, &defs), &w.m);
    w.transact_noted(&first, ctx)?;
    let mut g = TxGen::new(&defs);
    g.max_ents = 4;
    g.bad = if s.chance(1, 4) { 60 } else { 0 };
    let mut nontrivial = false;
    let n = s.size(2, if tier.thorough { 8 } else { 4 });
    for _ in 0..n {
        let mut t = chain_tx(s, &w.m, &defs);
        if s.chance(1, 2) || t.is_empty() {
            t.extend(g.tx(s, &w.m));
        }
        if s.chance(4, 5) {
            t = reduce(t, &w.m);
        }
        let t = normal(&w.m, &t);
        let plan = w.m.plan(&t);
        let ahead = names_new_ids(&w.m, &t) || w.m.facts.keys().any(|(_, _, v)| if let V::Ref(n) = v { *n >= w.m.next_user && *n < w.m.next_max + 100 } else { false });
        let k = s.size(2, if tier.thorough { 12 } else { 5 });
        let mut seen: BTreeSet<String> = BTreeSet::new();
        ctx.note(format!("transaction {}", tx_edn(&t)));
        for _ in 0..k {
            let mut v = t.clone();
            let mut r: Ren = temps(&t).into_iter().map(|x| (x.clone(), x)).collect();
            match s.below(4) {
                0 => v = split(s, &w.m, &v, false),
                1 => v = merge(s, &w.m, &v),
                2 => {
                    v = split(s, &w.m, &v, false);
                    v = shuffle(s, &v);
                    v = merge(s, &w.m, &v);
                }
                _ => (),
            }
            if !s.chance(1, 4) {
                v = shuffle(s, &v);
            }
            if !ahead && s.chance(2, 3) {
                r = renaming(s, &t);
                v = rename(&v, &r);
            }
            if seen.insert(tx_edn(&v)) {
                variant(&mut w, &plan, &v, &r, ctx)?;
            }
        }
        let got = w.transact_noted(&t, ctx)?;
        let (ups, how) = match (&got, &plan) {
            (Some(ef), _) => (ef.upserted > 0, "accepted"),
            (None, Err(e)) => (e.contains("upsert") || e.contains("conflict"), "refused"),
            _ => (false, ""),
        };
        if ups {
            ctx.label(if how == "accepted" { "accepted with upserts" } else { "refused for a conflict" });
        }
        if got.as_ref().map_or(false, |ef| ef.upserted >= 3) {
            ctx.label("three or more upserts");
        }
        ctx.label(if how == "accepted" { "accepted" } else { "refused" });
        nontrivial |= ups && t.len() >= 3 && seen.len() >= 3;
    }
    let log = db::read_log(w.store.sqlite_mut(), &w.m.fts())?;
    check!(log == w.m.log, "the log differs from the transactions committed");
    ctx.nontrivial = nontrivial;
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn other_attr(ctx: &mut Ctx) -> CaseResult {
        let defs = [def(":t/i", Vt::Long, false, Some(Uniq::Identity)), def(":t/s", Vt::Str, false, Some(Uniq::Identity))];
        let mut w = World::mem()?;
        w.install(&defs, ctx)?;
        let x = || Ep::Temp("x".into());
        w.transact_noted(&[Ent::add(x(), ":t/i", Vp::Val(V::Long(1)))], ctx)?;
        w.transact_noted(&[Ent::add(x(), ":t/i", Vp::Val(V::Long(1))), Ent::add(x(), ":t/s", Vp::Val(V::s("new")))], ctx)?;
        Ok(())
    }
    vec![("assertions of an entity that upserts through another attribute", other_attr as fn(&mut Ctx) -> CaseResult)]
}
