//! P29: the size of transactions, pulls and caches does not matter.
//!
//! The transactor works in chunks sized by SQLite's limit on statement parameters (32766). Most
//! cases lower that limit on the connection, which it asks for the limit, so that small transactions
//! cross many chunk boundaries; some are really big.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p01::def;
use crate::p14::{map_of, value_of, Map, Pv};
use crate::vals::*;
use crate::world::*;
use mentat::{CacheAction, CacheDirection, Pullable};
use rusqlite::limits::Limit;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "P29",
    rule: "Two stores get the same transactions; on one of them SQLite's limit of statement parameters, by which the transactor sizes its chunks, is lowered to 12-100, so that every transaction of 2-60 entities (new, upserted, known by lookup ref or id; values of one, of many, replaced, retracted, references to each other, fulltext strings shared within and across chunks; sometimes one that breaks a rule) crosses chunk boundaries, often exactly. One case in some hundred uses transactions of 1000-12000 assertions, at and around multiples of the real chunk sizes, and pulls, caches and ground lists over all entities. Outcome, facts, tempids and log are compared with the model, and all tables between the stores. Non-trivial: some accepted transaction needed at least two chunks.",
    quick_cases: 1500,
    thorough_cases: 30000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["SQLite's other limits (a statement of a million bytes, 500 unions, expressions 1000 deep) bound single queries and pulls"],
};

const WORDS: [&str; 12] = ["quick", "brown fox", "fox", "lazy dog", "", "dog", "a b c", "Été", "123", "12", "jumps over", "x"];

fn schema() -> Vec<AttrDef> {
    let mut v = vec![
        def(":n/id", Vt::Long, false, Some(Uniq::Identity)),
        def(":n/key", Vt::Str, false, Some(Uniq::Identity)),
        def(":n/tag", Vt::Str, true, Some(Uniq::Value)),
        def(":n/val", Vt::Long, false, None),
        def(":n/many", Vt::Long, true, None),
        def(":n/str", Vt::Str, false, None),
        def(":n/ref", Vt::Ref, true, None),
        def(":n/kid", Vt::Ref, false, None),
        def(":n/f1", Vt::Str, false, None),
        def(":n/ft", Vt::Str, true, None),
    ];
    for d in v.iter_mut().rev().take(2) {
        d.attr.fulltext = true;
        d.attr.index = true;
    }
    v
}

fn ar(n: &str) -> ARef {
    ARef { name: AName::Ident(n.into()), rev: false }
}

/// n entities, each with something said about it, free of conflicts but for a rare deliberate one.
fn gen_tx(s: &mut Src, m: &Model, n: usize, bad: bool) -> Vec<Ent> {
    let ids: BTreeMap<i64, i64> = m.facts.keys().filter(|k| k.1 == m.idents[":n/id"]).map(|k| (if let V::Long(x) = k.2 { x } else { 0 }, k.0)).collect();
    let known: Vec<(i64, i64)> = ids.iter().map(|(a, b)| (*a, *b)).collect();
    let mut fresh = known.last().map_or(0, |x| x.0 + 1);
    let mut used = BTreeSet::new();
    let mut out: Vec<Ent> = vec![];
    let mut refs: Vec<Vp> = vec![];
    // What the entities of this transaction mostly do.
    let plain = s.chance(1, 4);
    let texty = s.chance(1, 3);
    let mut tags: i64 = m.facts.keys().filter(|k| k.1 == m.idents[":n/tag"]).count() as i64 * 100 + (m.next_tx - TX0) * 100_000;
    for i in 0..n {
        let mut kvs: Vec<(ARef, Vp)> = vec![];
        let old = if !known.is_empty() && s.bool() { Some(*s.pick(&known)) } else { None }.filter(|x| used.insert(x.0));
        let how = s.below(3);
        let e = match old {
            Some((k, id)) => match how {
                0 => Ep::Id(id),
                1 => Ep::Lookup(AName::Ident(":n/id".into()), V::Long(k)),
                _ => {
                    kvs.push((ar(":n/id"), Vp::Val(V::Long(k))));
                    Ep::Temp(format!("t{}", i))
                }
            },
            None => {
                if !plain || how > 0 {
                    kvs.push((ar(":n/id"), Vp::Val(V::Long(fresh))));
                }
                fresh += 1;
                Ep::Temp(format!("t{}", i))
            }
        };
        if let Some((_, id)) = old {
            // Something known about it goes.
            if s.chance(1, 4) {
                let has: Vec<&(i64, i64, V)> = m.facts.range((id, 0, V::Ref(i64::MIN))..(id + 1, 0, V::Ref(i64::MIN))).map(|x| x.0).filter(|k| k.1 != m.idents[":n/id"] && (k.1 == m.idents[":n/many"] || k.1 == m.idents[":n/ft"] || k.1 == m.idents[":n/tag"])).collect();
                if !has.is_empty() {
                    let k = *s.pick(&has);
                    out.push(Ent::List(false, Ep::Id(id), ARef { name: AName::Id(k.1), rev: false }, Vp::Val(k.2.clone())));
                    refs.push(Vp::Val(V::Ref(id)));
                    continue;
                }
            }
        }
        if plain {
            kvs.push((ar(":n/val"), Vp::Val(V::Long(i as i64 % 7))));
        } else if texty {
            for _ in 0..s.size(1, 3) {
                let w = s.pick(&WORDS).to_string();
                let w = if s.chance(1, 4) { format!("{} {}", w, s.below(20)) } else { w };
                if kvs.iter().any(|(_, v)| *v == Vp::Val(V::Str(w.clone()))) {
                    continue;
                }
                kvs.push((ar(":n/ft"), Vp::Val(V::Str(w))));
            }
            if s.bool() {
                kvs.push((ar(":n/f1"), Vp::Val(V::Str(s.pick(&WORDS).to_string()))));
            }
        } else {
            match s.below(7) {
                0 => kvs.push((ar(":n/val"), Vp::Val(V::Long(s.below(5) as i64)))),
                1 => {
                    let k = s.size(1, 5) as i64;
                    kvs.extend((0..k).map(|x| (ar(":n/many"), Vp::Val(V::Long(x)))));
                }
                2 => kvs.push((ar(":n/str"), Vp::Val(V::Str(s.pick(&WORDS).to_string())))),
                3 if !refs.is_empty() => kvs.push((ar(":n/ref"), s.pick(&refs).clone())),
                4 if !refs.is_empty() => kvs.push((ar(":n/kid"), s.pick(&refs).clone())),
                5 => {
                    tags += 1;
                    kvs.push((ar(":n/tag"), Vp::Val(V::Str(format!("tag {}", tags)))));
                }
                _ => {
                    tags += 1;
                    kvs.push((ar(":n/key"), Vp::Val(V::Str(format!("key {}", tags)))));
                }
            }
        }
        match &e {
            Ep::Temp(t) => refs.push(Vp::Temp(t.clone())),
            Ep::Id(x) => refs.push(Vp::Val(V::Ref(*x))),
            Ep::Lookup(a, v) => refs.push(Vp::Lookup(a.clone(), v.clone())),
            _ => (),
        }
        if s.chance(1, 3) {
            let mut g: Vec<(ARef, Vec<Vp>)> = vec![];
            for (a, v) in kvs {
                match g.iter_mut().find(|x| x.0 == a) {
                    Some(x) => x.1.push(v),
                    None => g.push((a, vec![v])),
                }
            }
            out.push(Ent::Map(Some(e), g.into_iter().map(|(a, mut v)| if v.len() == 1 { (a, v.pop().unwrap()) } else { (a, Vp::Vec(v)) }).collect()));
        } else {
            out.extend(kvs.into_iter().map(|(a, v)| Ent::List(true, e.clone(), a, v)));
        }
    }
    if bad && !out.is_empty() {
        let at = s.idx(out.len());
        let k = known.first().map_or(3, |x| x.0);
        let extra = match s.below(4) {
            0 => Ent::List(true, Ep::Temp("clash".into()), ar(":n/tag"), Vp::Val(m.facts.keys().find(|k| k.1 == m.idents[":n/tag"]).map_or(V::Str("tag 1".into()), |k| k.2.clone()))),
            1 => Ent::List(true, Ep::Lookup(AName::Ident(":n/id".into()), V::Long(-5)), ar(":n/val"), Vp::Val(V::Long(1))),
            2 => Ent::List(true, Ep::Lookup(AName::Ident(":n/id".into()), V::Long(k)), ar(":n/val"), Vp::Val(V::Long(77))),
            _ => Ent::List(true, Ep::Temp("typed".into()), ar(":n/f1"), Vp::Val(V::Long(1))),
        };
        out.insert(at, extra);
    }
    out
}

fn limit(w: &mut World, n: i32) {
    w.store.sqlite_mut().set_limit(Limit::SQLITE_LIMIT_VARIABLE_NUMBER, n);
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    if s.chance(1, if tier.thorough { 200 } else { 150 }) {
        return big(s, ctx);
    }
    let mut w = World::mem()?;
    let mut twin = World::mem()?;
    let lim = if s.bool() { 12 * s.size(1, 8) as i32 } else { s.range(12, 100) as i32 };
    ctx.note(format!("statement parameters limited to {}", lim));
    w.install(&schema(), ctx)?;
    twin.install(&schema(), &mut Ctx::default())?;
    limit(&mut w, lim);
    let mut cached = false;
    for _ in 0..s.size(1, 4) {
        let bad = s.chance(1, 8);
        let n = s.size(2, 60);
        let t = gen_tx(s, &w.m, n, bad);
        if !cached && s.chance(1, 5) {
            cached = true;
            for (a, d) in [(":n/val", CacheDirection::Forward), (":n/id", CacheDirection::Both), (":n/ft", CacheDirection::Both), (":n/many", CacheDirection::Reverse)] {
                w.store.begin_transaction().and_then(|mut ip| ip.cache(&keyword(a), d, CacheAction::Register).and_then(|_| ip.commit())).map_err(es)?;
            }
        }
        // Equal instants, so that the stores stay the same.
        let r = w.transact_noted(&t, ctx)?;
        let mut q = Ctx::default();
        let r2 = twin.transact_noted(&t, &mut q)?;
        check!(r.is_some() == r2.is_some(), "the outcome depends on the chunk size");
        if let (Some(a), Some(b)) = (&r, &r2) {
            check!(a.tempids == b.tempids, "tempids depend on the chunk size: {:?} and {:?}", a.tempids, b.tempids);
            let kinds = chunks_of(a, &w.m, lim as usize);
            ctx.label("accepted");
            if kinds.0 {
                ctx.nontrivial = true;
                ctx.label("several chunks of plain assertions");
            }
            if kinds.1 {
                ctx.nontrivial = true;
                ctx.label("several chunks of fulltext assertions");
            }
        } else {
            ctx.label("refused");
        }
    }
    let fresh = db::read_log(w.store.sqlite_mut(), &w.m.fts())?;
    for (tx, want) in &w.m.log {
        let got = fresh.get(tx).cloned().unwrap_or_default();
        if let Some(d) = db::diff_sets(want, &got) {
            fail!("log of transaction {}: {}", tx, d);
        }
    }
    check_constraints(&w.m.facts)?;
    let (a, b) = (p04_mask(&db::dump(w.store.sqlite_mut())?), p04_mask(&db::dump(twin.store.sqlite_mut())?));
    if let Some(d) = db::diff_dump(&a, &b) {
        fail!("the tables depend on the chunk size: {}", d);
    }
    check_lookups(&w.store, &w.m, s, 4)?;
    Ok(())
}

use crate::fail;
use crate::p04::masked as p04_mask;

/// Whether this many facts of each kind take several chunks.
fn chunks_of(ef: &Effect, m: &Model, lim: usize) -> (bool, bool) {
    let n = |full: bool| ef.added.iter().filter(|(_, a, _)| m.schema.get(a).map_or(false, |x| x.fulltext == full)).count();
    (n(false) > lim / 6, n(true) > lim / 6)
}

fn pull_all(w: &World, ctx: &mut Ctx) -> CaseResult {
    let m = &w.m;
    let ents: Vec<i64> = TxGen::new(&defs_of(m)).user_ents(m);
    let attrs: Vec<i64> = m.idents.iter().filter(|(k, _)| k.starts_with(":n/")).map(|x| *x.1).collect();
    let names: BTreeMap<i64, String> = m.idents.iter().map(|(k, v)| (*v, k.clone())).collect();
    ctx.note(format!("pull of {} entities", ents.len()));
    let r = w.store.pull_attributes_for_entities(ents.iter().cloned(), attrs.iter().cloned()).map_err(|e| format!("pull of {} entities failed: {}", ents.len(), e))?;
    let mut got: BTreeMap<i64, Map> = BTreeMap::new();
    for (e, b) in r.iter() {
        got.insert(*e, map_of(b)?);
    }
    for e in ents {
        let want: Map = attrs.iter().filter_map(|a| value_of(m, e, *a).map(|v| (names[a].clone(), v))).collect::<BTreeMap<String, Pv>>();
        let g = got.get(&e).cloned().unwrap_or_default();
        check!(g == want, "pull of many entities: {} has {:?} instead of {:?}", e, g, want);
    }
    ctx.label("pull of many entities");
    Ok(())
}

fn ground(s: &mut Src, w: &World, ctx: &mut Ctx) -> CaseResult {
    let m = &w.m;
    let key = s.bool();
    let a = m.idents[if key { ":n/key" } else { ":n/id" }];
    let all: Vec<&(i64, i64, V)> = m.facts.keys().filter(|k| k.1 == a).collect();
    if all.is_empty() {
        return Ok(());
    }
    let n = all.len();
    let text = format!("[:find [?e ...] :where [(ground [{}]) [?x ...]] [?e {} ?x]]", all.iter().map(|k| k.2.edn()).collect::<Vec<_>>().join(" "), if key { ":n/key" } else { ":n/id" });
    let got = coll(&w.store, &text).map_err(|e| format!("a list of {} values fails: {}", n, e))?;
    let got: BTreeSet<V> = got.into_iter().collect();
    let want: BTreeSet<V> = all.iter().map(|k| V::Ref(k.0)).collect();
    check!(got == want, "a list of {} values gives {} entities instead of {}", n, got.len(), want.len());
    ctx.label("long list in a query");
    Ok(())
}

fn big(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut w = World::mem()?;
    w.install(&schema(), ctx)?;
    ctx.label("really big");
    let base = *s.pick(&[2730usize, 5461, 8191, 1000]);
    let n = base - 1 + s.idx(3);
    let t = gen_tx(s, &w.m, n, false);
    let t2 = {
        w.transact(&t)?;
        ctx.note(format!("{} entities, {} entries", n, t.len()));
        let n = s.size(100, 3000);
        gen_tx(s, &w.m, n, false)
    };
    for (a, d) in [(":n/val", CacheDirection::Forward), (":n/id", CacheDirection::Both)] {
        w.store.cache(&keyword(a), d).map_err(es)?;
    }
    w.transact(&t2)?;
    ctx.note(format!("then {} entries", t2.len()));
    ctx.nontrivial = t.len() > 1000;
    pull_all(&w, ctx)?;
    ground(s, &w, ctx)?;
    check_lookups(&w.store, &w.m, s, 20)?;
    Ok(())
}

/// Exactly n assertions of one kind in a transaction.
fn exactly(ctx: &mut Ctx, n: usize, attr: &str, distinct: usize) -> CaseResult {
    let mut w = World::mem()?;
    w.install(&schema(), ctx)?;
    let text = attr != ":n/many" && attr != ":n/val";
    let t: Vec<Ent> = (0..n)
        .map(|i| {
            let v = i % distinct;
            Ent::List(true, Ep::Temp(format!("t{}", i)), ar(attr), Vp::Val(if text { V::Str(format!("w{}", v)) } else { V::Long(v as i64) }))
        })
        .collect();
    match w.transact(&t)? {
        Some(_) => Ok(()),
        None => Err(format!("{} assertions refused", n)),
    }
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn around(ctx: &mut Ctx) -> CaseResult {
        for n in [5459, 5460, 5461, 5462] {
            exactly(ctx, n, ":n/many", 10)?;
            exactly(ctx, n, ":n/val", 10)?;
        }
        Ok(())
    }
    fn two(ctx: &mut Ctx) -> CaseResult {
        exactly(ctx, 10921, ":n/many", 10)?;
        exactly(ctx, 10923, ":n/val", 10)
    }
    fn full(ctx: &mut Ctx) -> CaseResult {
        exactly(ctx, 5461, ":n/ft", 5)?;
        exactly(ctx, 5462, ":n/f1", 5)?;
        exactly(ctx, 5470, ":n/ft", 40)
    }
    fn lookups(ctx: &mut Ctx) -> CaseResult {
        let mut w = World::mem()?;
        w.install(&schema(), ctx)?;
        let n = 8192;
        let t: Vec<Ent> = (0..n).map(|i| Ent::List(true, Ep::Temp(format!("t{}", i)), ar(":n/id"), Vp::Val(V::Long(i)))).collect();
        w.transact(&t)?;
        for n in [8190, 8191, 8192] {
            let t: Vec<Ent> = (0..n).map(|i| Ent::List(true, Ep::Lookup(AName::Ident(":n/id".into()), V::Long(i)), ar(":n/val"), Vp::Val(V::Long(n + i)))).collect();
            check!(w.transact(&t)?.is_some(), "{} lookup refs refused", n);
            let t: Vec<Ent> = (0..n).flat_map(|i| vec![Ent::List(true, Ep::Temp(format!("t{}", i)), ar(":n/id"), Vp::Val(V::Long(i))), Ent::List(true, Ep::Temp(format!("t{}", i)), ar(":n/val"), Vp::Val(V::Long(2 * n + i)))]).collect();
            check!(w.transact(&t)?.is_some(), "{} upserts refused", n);
        }
        Ok(())
    }
    vec![("as many assertions as fill a chunk", around), ("two chunks of assertions", two), ("chunks of fulltext values", full), ("chunks of lookup refs and upserts", lookups)]
}

