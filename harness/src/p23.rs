//! P23: queries over the log return exactly the recorded history slice.

use crate::engine::*;
use crate::gen::*;
use crate::p10::check_query;
use crate::query::*;
use crate::vals::*;
use crate::world::*;

pub static PROP: Prop = Prop {
    id: "P23",
    rule: "Random queries with tx-ids and tx-data clauses (constant, ident, variable and input transactions, every binding position bound, joined or left out, within or and not) joined with patterns, predicates and ground, over stores with random histories of assertions, retractions and replaced values, compared with a naive evaluation over the model's log and facts. Non-trivial: a non-empty answer of a query with a log clause and at least one other clause.",
    quick_cases: 8000,
    thorough_cases: 40000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["transaction ids, not instants, bound ranges of tx-ids: the query language has no other form"],
};

fn has_log(cls: &[Cl]) -> bool {
    cls.iter().any(|c| match c {
        Cl::TxIds { .. } | Cl::TxData { .. } => true,
        Cl::Or { legs, .. } => legs.iter().any(|l| has_log(l)),
        Cl::Not { cls, .. } => has_log(cls),
        _ => false,
    })
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(2, 7);
    let w = world(s, ctx, n)?;
    let db = Db::new(&w.m);
    let mut nontrivial = false;
    for _ in 0..(if tier.thorough { 12 } else { 6 }) {
        let ents = TxGen::new(&defs_of(&w.m)).user_ents(&w.m);
        let mut qg = QGen::new(&db, ents);
        qg.log = true;
        qg.input_pct = 30;
        let mut q = match qg.query(s, 1, 4) {
            Some(q) if has_log(&q.wh) => q,
            _ => continue,
        };
        // Perhaps an input for a transaction.
        if s.chance(1, 4) {
            for c in q.wh.iter_mut() {
                let t = match c {
                    Cl::TxData { tx, .. } => tx,
                    Cl::TxIds { lo, .. } => lo,
                    _ => continue,
                };
                if let Tm::C(v @ V::Ref(_)) = t.clone() {
                    let x = q.nvars;
                    q.nvars += 1;
                    q.inputs.push((x, v));
                    *t = Tm::Var(x);
                    break;
                }
            }
        }
        ctx.nontrivial = false;
        if let Err(e) = check_query(&w.store, &db, &q, ctx) {
            let r = reduce_query(&q, &mut |c| crate::p10::mismatch(&w.store, &db, c));
            let e2 = check_query(&w.store, &db, &r, &mut Ctx::default()).err().unwrap_or(e);
            return Err(e2);
        }
        nontrivial |= ctx.nontrivial;
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

fn log_of(c: &mut Ctx, query: &str, want: Vec<Vec<V>>) -> CaseResult {
    use mentat::Queryable;
    let mut w = World::mem()?;
    w.store.transact("[{:db/ident :t/f :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true} {:db/ident :t/l :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]").map_err(es)?;
    w.store.transact("[[:db/add 1 :t/f \"lazy dog\"] [:db/add 1 :t/l 5]]").map_err(es)?;
    w.store.transact("[[:db/add 1 :t/f \"12\"]]").map_err(es)?;
    c.note(query);
    c.nontrivial = true;
    let mut got = rows_of(&w.store.q_once(query, None).map_err(es)?.results)?;
    got.sort();
    crate::check!(got == want, "{}: {:?} instead of {:?}", query, got, want);
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("strings of a fulltext attribute in tx-data", |c| {
            log_of(
                c,
                "[:find ?v ?op :where [(tx-data $ 268435459) [[?e _ ?v _ ?op]]] [?e :t/l]]",
                vec![vec![V::s("12"), V::Bool(true)], vec![V::s("lazy dog"), V::Bool(false)]],
            )
        }),
        ("tx-data joined with a fulltext attribute", |c| {
            log_of(c, "[:find ?v ?tx :where [(tx-data $ 268435459) [[?e _ ?v ?tx]]] [?e :t/f ?v]]", vec![vec![V::s("12"), V::Ref(268435459)]])
        }),
    ]
}
