//! P12: attribute caching never changes any answer.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p03::cache_op;
use crate::query::*;
use crate::world::*;
use mentat::{CacheAction, Queryable};
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "P12",
    rule: "Histories on one store: attributes cached and uncached (forward, reverse, both; through the store or inside an open transaction), committed transactions of data and schema changes, and open transactions holding transactions, cache changes, savepoints and rollbacks to them, ended by commit, rollback or drop. After every step, inside and outside, random queries (biased to bound entities and values, some with order, limit and aggregates) and value lookups are answered through the caches and compared with the reference model's facts; when an answer is wrong the same query is asked without caching, and only a difference between the two counts. Non-trivial: a non-empty answer of a query over an attribute that was cached before the data last changed.",
    quick_cases: 4000,
    thorough_cases: 40000,
    run,
    fixed: no_fixed,
    known: no_fixed,
    assumptions: &["one connection per store: caches do not follow what another connection commits", "queries under P10's known findings are left out"],
};

#[derive(Clone, Default)]
struct Caches {
    /// Registered attributes, and those of them registered before the last change of data.
    now: BTreeSet<String>,
    old: BTreeSet<String>,
}

fn idents_of(cls: &[Cl], out: &mut BTreeSet<String>) {
    for c in cls {
        match c {
            Cl::Pat { a: Tm::Ident(i), .. } => {
                out.insert(i.clone());
            }
            Cl::Or { legs, .. } => legs.iter().for_each(|l| idents_of(l, out)),
            Cl::Not { cls, .. } => idents_of(cls, out),
            _ => {}
        }
    }
}

fn answer<Q: Queryable>(st: &Q, db: &Db, q: &Query, ctx: &mut Ctx) -> CaseResult {
    if q.order.is_empty() && q.limit.is_none() && q.shape == Shape::Rel && q.find.iter().all(|e| matches!(e, El::Var(_))) {
        crate::p10::check_query(st, db, q, ctx)
    } else {
        crate::p11::check_shape(st, db, q, ctx)
    }
}

/// Queries whose cached answers are wrong.
fn probe<Q: Queryable>(st: &Q, m: &Model, s: &mut Src, ctx: &mut Ctx, c: &Caches, n: usize) -> Result<Vec<(Query, String)>, String> {
    let db = Db::new(m);
    let ents = TxGen::new(&defs_of(m)).user_ents(m);
    let mut wrong = vec![];
    for _ in 0..n {
        let mut qg = QGen::new(&db, ents.clone());
        qg.input_pct = 70;
        let mut q = match qg.query(s, 1, 4) {
            Some(q) => q,
            None => continue,
        };
        if s.chance(1, 4) {
            crate::p11::dress(s, &mut q, &qg);
        }
        let mut mine = Ctx::default();
        let r = guarded(|| answer(st, &db, &q, &mut mine));
        for l in mine.labels.keys() {
            ctx.label(l);
        }
        ctx.note(format!("  ? {}", q.show()));
        if mine.nontrivial || matches!(r, Ok(Ok(()))) {
            let mut is = BTreeSet::new();
            idents_of(&q.wh, &mut is);
            if is.iter().any(|i| c.old.contains(i)) {
                ctx.label("query over a cached attribute");
                if mine.nontrivial {
                    ctx.nontrivial = true;
                }
            }
        }
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => wrong.push((q, e)),
            Err(p) => wrong.push((q, p)),
        }
    }
    // Lookups.
    check_lookups(st, m, s, 3)?;
    Ok(wrong)
}

/// Ask again without caches.
fn verdict(ip: &mut mentat::InProgress, m: &Model, wrong: Vec<(Query, String)>, ctx: &mut Ctx) -> CaseResult {
    if wrong.is_empty() {
        return Ok(());
    }
    let db = Db::new(m);
    ip.use_caching(false);
    let mut out = Ok(());
    for (q, e) in wrong {
        match guarded(|| answer(ip, &db, &q, &mut Ctx::default())) {
            Ok(Ok(())) => {
                ip.use_caching(true);
                let r = reduce_query(&q, &mut |c| {
                    ip.use_caching(true);
                    let cached = guarded(|| answer(ip, &db, c, &mut Ctx::default()));
                    ip.use_caching(false);
                    let plain = guarded(|| answer(ip, &db, c, &mut Ctx::default()));
                    let bad = match &cached {
                        Ok(Err(_)) | Err(_) => true,
                        _ => false,
                    };
                    bad && matches!(plain, Ok(Ok(())))
                });
                ip.use_caching(true);
                let again = match guarded(|| answer(ip, &db, &r, &mut Ctx::default())) {
                    Ok(Err(e)) | Err(e) => e,
                    Ok(Ok(())) => e,
                };
                out = Err(format!("right without caches, but through them: {}", again));
                break;
            }
            _ => ctx.label("wrong without caches, too (see P10, P11)"),
        }
    }
    ip.use_caching(true);
    out
}

fn cache(ip: &mut mentat::InProgress, m: &Model, s: &mut Src, ctx: &mut Ctx, c: &mut Caches) -> CaseResult {
    if let Some((k, d, a, n)) = cache_op(s, m) {
        ctx.note(format!("  {}", n));
        let dereg = matches!(a, CacheAction::Deregister);
        ip.cache(&k, d, a).map_err(es)?;
        if dereg {
            c.now.remove(&k.to_string());
            c.old.remove(&k.to_string());
            ctx.label("uncached");
        } else {
            c.now.insert(k.to_string());
            ctx.label("cached inside a transaction");
        }
    }
    Ok(())
}

fn session(w: &mut World, s: &mut Src, ctx: &mut Ctx, c: &mut Caches) -> CaseResult {
    let mut m = w.m.clone();
    let mut cs = c.clone();
    let mut saved: Vec<(String, Model, Caches)> = vec![];
    ctx.note("begin");
    let keep;
    {
        let mut ip = w.store.begin_transaction().map_err(es)?;
        for i in 0..s.size(1, 5) {
            match s.weighted(&[4, 3, 1, 1]) {
                0 => {
                    let ok = !s.chance(1, 8);
                    let t = evolving_tx(s, &m, 15, ok);
                    if transact_ip(&mut ip, &mut m, &t, ctx)?.is_some() {
                        cs.old = cs.now.clone();
                    }
                }
                1 => cache(&mut ip, &m, s, ctx, &mut cs)?,
                2 => {
                    let name = format!("s{}", i);
                    ctx.note(format!("  savepoint {}", name));
                    ip.savepoint(&name).map_err(es)?;
                    saved.push((name, m.clone(), cs.clone()));
                }
                _ => {
                    if let Some((name, m0, c0)) = saved.pop() {
                        ctx.note(format!("  rollback to {}", name));
                        ip.rollback_savepoint(&name).map_err(es)?;
                        m = m0;
                        cs = c0;
                        ctx.label("rolled back to a savepoint");
                    }
                }
            }
            let wrong = probe(&ip, &m, s, ctx, &cs, 2)?;
            verdict(&mut ip, &m, wrong, ctx)?;
        }
        keep = s.chance(2, 3);
        if keep {
            ctx.note("commit");
            ip.commit().map_err(es)?;
        } else if s.bool() {
            ctx.note("rollback");
            ip.rollback().map_err(es)?;
        } else {
            ctx.note("drop");
        }
    }
    if keep {
        w.m = m;
        *c = cs;
    } else {
        ctx.label("transaction abandoned");
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(1, 3);
    let mut w = world(s, ctx, n)?;
    let mut c = Caches::default();
    for _ in 0..s.size(2, if tier.thorough { 8 } else { 6 }) {
        match s.weighted(&[3, 3, 3]) {
            0 => {
                if let Some((k, d, a, n)) = cache_op(s, &w.m) {
                    if !matches!(a, CacheAction::Deregister) {
                        ctx.note(n);
                        w.store.cache(&k, d).map_err(es)?;
                        c.now.insert(k.to_string());
                    }
                }
            }
            1 => {
                let ok = !s.chance(1, 8);
                let t = evolving_tx(s, &w.m, 12, ok);
                if w.transact_noted(&t, ctx)?.is_some() {
                    c.old = c.now.clone();
                }
            }
            _ => session(&mut w, s, ctx, &mut c)?,
        }
        let wrong = probe(&w.store, &w.m, s, ctx, &c, 2)?;
        if !wrong.is_empty() {
            let m = w.m.clone();
            let mut ip = w.store.begin_transaction().map_err(es)?;
            verdict(&mut ip, &m, wrong, ctx)?;
        }
    }
    Ok(())
}
