//! P05: entity ids.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p01::def;
use crate::p02::reopen;
use crate::vals::*;
use crate::world::*;
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "P05",
    rule: "Histories of 3-9 steps (single transactions, batches committed or abandoned, reopening of file stores) made of transactions that use up to ten tempids each in entity and value position, in maps, nested maps, reversed and identified with one another or with existing entities through one or several unique-identity attributes and chains of them, and entity ids at the edges of what is allocated. After each transaction: every tempid reported exactly once; identified ones agree and resolve to the existing entity; new ones get distinct ids of the user partition at or above every id used or handed out before; transaction ids are consecutive in their partition; ids never allocated are refused in entity position; every stored entity id was allocated. Non-trivial: a transaction that allocates at least two entities, and one that resolves a tempid to an existing entity.",
    quick_cases: 9000,
    thorough_cases: 100000,
    run,
    fixed,
    known,
    assumptions: &["after reopening, ids that were handed out but never stored in entity position count as unused (see the known finding)"],
};

fn schema(s: &mut Src) -> Vec<AttrDef> {
    let mut v = vec![
        def(":t/r", Vt::Ref, s.bool(), None),
        def(":t/i", Vt::Long, false, Some(Uniq::Identity)),
        def(":t/j", Vt::Ref, s.chance(1, 3), Some(Uniq::Identity)),
        def(":t/s", Vt::Str, s.bool(), Some(Uniq::Identity)),
        def(":t/v", Vt::Ref, false, if s.bool() { Some(Uniq::Value) } else { None }),
    ];
    v[0].attr.component = s.bool();
    if s.bool() {
        v.push(def(":t/k", Vt::Kw, true, Some(Uniq::Identity)));
    }
    v
}

fn id_tx(s: &mut Src, m: &Model, defs: &[AttrDef]) -> Vec<Ent> {
    let mut g = TxGen::new(defs);
    g.temps = vec!["a", "b", "c", "d", "e", "f", "g", "10", "9", "zz"];
    g.temps.truncate(s.size(2, 10));
    g.max_ents = 10;
    g.retract_pct = 8;
    g.bad = if s.chance(1, 3) { 150 } else { 0 };
    if s.chance(2, 3) {
        g.ok_tx(s, m)
    } else {
        g.tx(s, m)
    }
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let file = s.chance(1, 6);
    let dir = if file { Some(ctx.dir()) } else { None };
    let mut w = match &dir {
        Some(d) => World::open_file(&d.join("s.db"))?,
        None => World::mem()?,
    };
    let defs = schema(s);
    w.install(&defs, ctx)?;
    let mut known: BTreeSet<i64> = w.m.facts.keys().map(|(e, _, _)| *e).collect();
    let mut handed = known.clone();
    let (mut several, mut upsert) = (false, false);
    let mut see = |ef: &Effect, ctx: &mut Ctx, known: &mut BTreeSet<i64>, fresh_ok: bool| -> Result<(), String> {
        for e in ef.fresh.iter().chain(ef.fresh_anon.iter()) {
            if known.contains(e) && fresh_ok {
                return Err(format!("id {} is handed out for a new entity although it was in use", e));
            }
        }
        known.extend(ef.fresh.iter().chain(ef.fresh_anon.iter()));
        check!(known.insert(ef.tx), "transaction id {} was in use", ef.tx);
        several |= ef.fresh.len() >= 2;
        upsert |= ef.upserted > 0;
        if ef.upserted > 0 {
            ctx.label("upserts");
        }
        if ef.fresh.len() >= 2 {
            ctx.label("allocates several");
        }
        if ef.tempids.values().collect::<BTreeSet<_>>().len() < ef.tempids.len() {
            ctx.label("tempids identified");
        }
        Ok(())
    };
    let n = s.size(3, if tier.thorough { 16 } else { 9 });
    for _ in 0..n {
        if s.chance(1, 5) {
            let mut m = w.m.clone();
            let commit = s.chance(2, 3);
            let mut k = known.clone();
            ctx.note("begin");
            let mut ip = w.store.begin_transaction().map_err(es)?;
            for _ in 0..s.size(1, 3) {
                let t = id_tx(s, &m, &defs);
                if let Some(ef) = transact_ip(&mut ip, &mut m, &t, ctx)? {
                    see(&ef, ctx, &mut k, true)?;
                }
            }
            if commit {
                ip.commit().map_err(es)?;
                w.m = m;
                known = k;
                ctx.note("commit");
            } else {
                drop(ip);
                ctx.note("drop");
                ctx.label("batch abandoned");
            }
        } else {
            let t = id_tx(s, &w.m, &defs);
            match w.transact_noted(&t, ctx)? {
                Some(ef) => see(&ef, ctx, &mut known, true)?,
                None => ctx.label("refused"),
            }
        }
        if file && s.chance(1, 4) {
            reopen(&mut w, &dir, ctx)?;
            // Ids never stored in entity position may come again.
            handed.extend(known.iter().cloned());
            let next = w.m.next_user;
            known.retain(|e| *e < next || *e >= TX0);
            // Padding after reopening (see skip_dangling).
            known.extend(w.m.facts.keys().map(|(e, _, _)| *e));
            known.extend(w.m.log.keys().cloned());
        }
    }
    handed.extend(known.iter().cloned());
    for (e, _, _) in w.m.facts.keys() {
        // The allocator may skip ids; a skipped id counts as allocated.
        check!(handed.contains(e) || (*e < w.m.next_user && *e < TX0), "stored entity id {} was never allocated", e);
    }
    ctx.nontrivial = several && upsert;
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn stays(ctx: &mut Ctx) -> CaseResult {
        // A tempid that upserted stays resolved when a later upsert of it finds nothing.
        let defs = [def(":t/r", Vt::Ref, false, Some(Uniq::Identity)), def(":t/i", Vt::Long, false, Some(Uniq::Identity))];
        let mut w = World::mem()?;
        w.install(&defs, ctx)?;
        w.transact_noted(&[Ent::add(Ep::Temp("x".into()), ":t/i", Vp::Val(V::Long(1)))], ctx)?;
        w.transact_noted(
            &[
                Ent::add(Ep::Temp("x".into()), ":t/i", Vp::Val(V::Long(1))),
                Ent::add(Ep::Temp("y".into()), ":t/i", Vp::Val(V::Long(2))),
                Ent::add(Ep::Temp("x".into()), ":t/r", Vp::Temp("y".into())),
            ],
            ctx,
        )?;
        Ok(())
    }
    vec![("an upserted tempid stays resolved", stays as fn(&mut Ctx) -> CaseResult)]
}

fn known() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn reuse(ctx: &mut Ctx) -> CaseResult {
        let d = ctx.dir();
        let mut w = World::open_file(&d.join("s.db"))?;
        w.install(&[def(":t/r", Vt::Ref, false, None)], ctx)?;
        let a = w.store.transact("[[:db/add (transaction-tx) :t/r \"a\"]]").map_err(es)?.tempids["a"];
        drop(w);
        let mut w = World::open_file(&d.join("s.db"))?;
        let b = w.store.transact("[[:db/add \"b\" :db/doc \"new\"]]").map_err(es)?.tempids["b"];
        let _ = db::read_facts(w.store.sqlite_mut())?;
        check!(a != b, "id {} was handed out for two entities", a);
        Ok(())
    }
    vec![("id-known-only-as-a-value", reuse as fn(&mut Ctx) -> CaseResult)]
}

#[allow(dead_code)]
type Unused = Facts;
