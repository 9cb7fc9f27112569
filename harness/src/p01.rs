use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::vals::*;
use crate::world::*;
use crate::check;

pub static PROP: Prop = Prop {
    id: "P01",
    rule: "A random schema (3-9 attributes of random type, cardinality, uniqueness, index, fulltext, component) and a history of 3-10 transactions of 0-6 entities (list, map, nested map, vector, reversed, lookup-ref, tempid, ident, transaction-tx; adds, retracts, re-asserts, deliberate errors) run on a store and on a set-based reference model; facts with their transactions, log, tempids and accept/reject are compared after each. Non-trivial: at least two accepted transactions that change user facts, one of them replacing, retracting or upserting.",
    quick_cases: 16000,
    thorough_cases: 120000,
    run,
    fixed: fixed,
    known: no_fixed,
    assumptions: &["the reference model in harness/src/model.rs is the documented transaction semantics"],
};

pub fn classify(ef: &Effect, m: &Model, ctx: &mut Ctx) -> bool {
    let mut interesting = false;
    if !ef.removed.is_empty() {
        ctx.label("tx removes or replaces");
        interesting = true;
    }
    if ef.upserted > 0 {
        ctx.label("tx upserts");
        interesting = true;
    }
    if ef.noop_adds > 0 {
        ctx.label("tx re-asserts");
    }
    if ef.noop_retracts > 0 {
        ctx.label("tx retracts absent fact");
    }
    if ef.fresh.len() > 1 {
        ctx.label("tx allocates several");
    }
    if ef.tempids.len() > ef.fresh.len() + ef.upserted {
        ctx.label("tx identifies tempids");
    }
    if ef.added.iter().any(|(_, a, _)| m.schema.get(a).map_or(false, |x| x.fulltext)) {
        ctx.label("tx adds fulltext");
    }
    interesting
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = World::mem()?;
    let defs = gen_schema(s, 3, 9);
    w.install(&defs, ctx)?;
    let g = TxGen::new(&defs);
    let n = s.size(3, if tier.thorough { 16 } else { 10 });
    let mut ok = 0;
    let mut interesting = false;
    for _ in 0..n {
        let t = if s.chance(1, 4) { g.tx(s, &w.m) } else { g.ok_tx(s, &w.m) };
        match w.transact_noted(&t, ctx)? {
            Some(ef) => {
                ctx.label("tx accepted");
                if !ef.added.is_empty() || !ef.removed.is_empty() {
                    ok += 1;
                }
                interesting |= classify(&ef, &w.m, ctx);
            }
            None => ctx.label("tx rejected"),
        }
    }
    let log = db::read_log(w.store.sqlite_mut(), &w.m.fts())?;
    if log != w.m.log {
        for (tx, want) in &w.m.log {
            let got = log.get(tx).cloned().unwrap_or_default();
            if let Some(d) = db::diff_sets(want, &got) {
                return Err(format!("log of transaction {}: {}", tx, d));
            }
        }
        return Err(format!("log has extra transactions: {:?}", log.keys().filter(|k| !w.m.log.contains_key(k)).collect::<Vec<_>>()));
    }
    check!(w.m.facts.len() > 0, "no facts");
    ctx.nontrivial = ok >= 2 && interesting;
    Ok(())
}

/// Run a list of transactions (EDN of the model's own making) against store and model.
pub fn script(defs: &[AttrDef], txs: &[Vec<Ent>], ctx: &mut Ctx) -> Result<World, String> {
    let mut w = World::mem()?;
    w.install(defs, ctx)?;
    for t in txs {
        w.transact_noted(t, ctx)?;
    }
    Ok(w)
}

pub fn def(ident: &str, vt: Vt, many: bool, unique: Option<Uniq>) -> AttrDef {
    let mut a = Attr::new(vt);
    a.many = many;
    a.unique = unique;
    a.index = unique.is_some();
    AttrDef { ident: ident.into(), attr: a }
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![]
}
