//! P02 (log), P06 (constraints), P09 (schema): histories whose schema evolves.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p01::classify;
use crate::vals::*;
use crate::world::*;

pub static PROP: Prop = Prop {
    id: "P02",
    rule: "Histories of 4-12 steps over an evolving schema (data transactions, alterations, deliberate errors; single transactions, batches committed, batches dropped or rolled back with or without a failing transaction inside). After every step the raw log is replayed: old entries unchanged, new ids above old ones and exactly the committed transactions, retractions of present facts and additions of absent ones only, one :db/txInstant each, replay equal to the current facts with their transactions; at the end each entry equals the model's record of what was really added and removed. Non-trivial: at least two committed transactions after the schema, of which one removes or replaces a fact or alters the schema.",
    quick_cases: 9000,
    thorough_cases: 90000,
    run: run02,
    fixed: no_fixed,
    known: no_fixed,
    assumptions: &[],
};

pub static P06: Prop = Prop {
    id: "P06",
    rule: "Histories of 4-14 steps in which values and schema constraints collide: small value pools on unique, cardinality-one and fulltext attributes, moves of unique values and idents between entities in one transaction, and alterations of cardinality and uniqueness over existing data. After every step the facts are checked, from the definitions in the facts alone, for shared unique values, several values of cardinality one, wrong types, doubly used idents and duplicate facts, and accept/reject is compared with the rules. Non-trivial: at least one step refused for a constraint or an accepted alteration of cardinality or uniqueness over data.",
    quick_cases: 11000,
    thorough_cases: 120000,
    run: run06,
    fixed: no_fixed,
    known: no_fixed,
    assumptions: &[],
};

pub static P09: Prop = Prop {
    id: "P09",
    rule: "Histories of 4-12 steps of attribute installations, permitted and forbidden alterations, renames and swaps of idents, removals of attributes, with data in between and in the same transactions, committed singly or in batches. After every step the running store's schema, ident maps and component list are compared with those derived from the stored facts; at the end (and sometimes in the middle) the store is reopened and compared again; accept/reject is compared with the documented rules. Non-trivial: at least one accepted and one refused alteration, or two accepted.",
    quick_cases: 9000,
    thorough_cases: 90000,
    run: run09,
    fixed: fixed09,
    known: no_fixed,
    assumptions: &[],
};

pub fn is_alter(t: &Effect) -> bool {
    t.added.iter().chain(t.removed.iter()).any(|(_, a, _)| is_schema_attr(*a))
}

fn run02(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = World::mem()?;
    let mut lo = LogOracle { prev: Log::new() };
    lo.check(&db::read_log(w.store.sqlite_mut(), &w.m.fts())?, &w.m.facts.clone(), None)?;
    let defs = gen_schema(s, 2, 7);
    w.install(&defs, ctx)?;
    let n = s.size(4, if tier.thorough { 20 } else { 12 });
    let mut commits = 0;
    let mut interesting = false;
    for _ in 0..n {
        let before_tx = w.m.next_tx;
        match s.weighted(&[6, 3, 2]) {
            0 => {
                let ok = !s.chance(1, 4);
                let t = evolving_tx(s, &w.m, 20, ok);
                match w.transact_noted(&t, ctx)? {
                    Some(ef) => {
                        commits += 1;
                        interesting |= classify(&ef, &w.m, ctx) || is_alter(&ef);
                    }
                    None => ctx.label("tx rejected"),
                }
            }
            k => {
                let commit = k == 1;
                let steps = s.size(0, 4);
                let mut m = w.m.clone();
                let mut any = 0;
                ctx.note(if commit { "begin (to commit)" } else { "begin (to abandon)" });
                {
                    let mut ip = w.store.begin_transaction().map_err(es)?;
                    for _ in 0..steps {
                        let ok = !s.chance(1, 5);
                        let t = evolving_tx(s, &m, 20, ok);
                        match transact_ip(&mut ip, &mut m, &t, ctx)? {
                            Some(ef) => {
                                any += 1;
                                interesting |= commit && (is_alter(&ef) || !ef.removed.is_empty());
                            }
                            None => ctx.label("failed transact inside a batch"),
                        }
                    }
                    if commit {
                        ip.commit().map_err(es)?;
                    } else if s.bool() {
                        ip.rollback().map_err(es)?;
                    }
                }
                ctx.note(if commit { "commit" } else { "abandoned" });
                ctx.label(if commit { "batch committed" } else { "batch abandoned" });
                if commit {
                    w.m = m;
                    commits += any;
                }
            }
        }
        let want: Vec<i64> = (before_tx..w.m.next_tx).collect();
        // The schema installation preceded the first step.
        let want = if lo.prev.len() == 1 { (before_tx - 1..w.m.next_tx).collect() } else { want };
        let facts = w.facts()?;
        let log = db::read_log(w.store.sqlite_mut(), &w.m.fts())?;
        lo.check(&log, &facts, Some(&want))?;
        check!(w.store.last_tx_id() == w.m.next_tx - 1, "last_tx_id is {}, the last transaction is {}", w.store.last_tx_id(), w.m.next_tx - 1);
    }
    for (tx, want) in &w.m.log {
        let got = lo.prev.get(tx).cloned().unwrap_or_default();
        if let Some(d) = db::diff_sets(want, &got) {
            return Err(format!("log of transaction {}: {}", tx, d));
        }
    }
    ctx.nontrivial = commits >= 2 && interesting;
    Ok(())
}

fn run06(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = World::mem()?;
    let mut defs = gen_schema(s, 2, 6);
    for d in defs.iter_mut() {
        if d.attr.unique.is_none() && s.bool() {
            d.attr.unique = Some(if s.bool() { Uniq::Identity } else { Uniq::Value });
            d.attr.index = true;
        }
    }
    w.install(&defs, ctx)?;
    let n = s.size(4, if tier.thorough { 24 } else { 14 });
    for _ in 0..n {
        let k = s.below(10);
        let t = if k < 3 {
            evolving_tx(s, &w.m, 100, false)
        } else if k < 5 {
            // Move or swap unique values between entities.
            let us: Vec<(i64, i64, V)> = w.m.facts.keys().filter(|(e, a, _)| *e >= USER0 && w.m.schema.get(a).map_or(false, |x| x.unique.is_some()) && !w.m.schema.contains_key(e)).cloned().collect();
            let ents = TxGen::new(&defs).user_ents(&w.m);
            if us.is_empty() || ents.is_empty() {
                evolving_tx(s, &w.m, 0, false)
            } else {
                let mut t = vec![];
                for _ in 0..s.size(1, 2) {
                    let (e, a, v) = s.pick(&us).clone();
                    let ar = ARef { name: AName::Id(a), rev: false };
                    let to = *s.pick(&ents);
                    if s.chance(2, 3) {
                        t.push(Ent::List(false, Ep::Id(e), ar.clone(), Vp::Val(v.clone())));
                    }
                    t.push(Ent::List(true, Ep::Id(to), ar.clone(), Vp::Val(v.clone())));
                    if s.chance(1, 3) {
                        let o = us.iter().find(|(e2, a2, v2)| *e2 == to && *a2 == a && *v2 != v);
                        if let Some((_, _, v2)) = o {
                            t.push(Ent::List(true, Ep::Id(e), ar.clone(), Vp::Val(v2.clone())));
                        }
                    }
                }
                ctx.label("moves unique values");
                t
            }
        } else {
            let ok = s.chance(3, 5);
            evolving_tx(s, &w.m, 0, ok)
        };
        let before = w.m.clone();
        let plan = w.m.plan(&t);
        match w.transact_noted(&t, ctx)? {
            Some(ef) => {
                for (e, a, _) in ef.added.iter() {
                    if *a == core::CARDINALITY || *a == core::UNIQUE {
                        if before.facts.keys().any(|(_, a2, _)| a2 == e) {
                            ctx.label("cardinality or uniqueness altered over data");
                            ctx.nontrivial = true;
                        }
                    }
                }
            }
            None => {
                if let Err(why) = plan {
                    for (k, l) in [("unique", "refused: unique"), ("cardinality one", "refused: cardinality"), ("type", "refused: type"), ("unique over", "refused: unique over data"), ("cardinality one over", "refused: cardinality over data")] {
                        if why.contains(k) {
                            ctx.label(l);
                            ctx.nontrivial = true;
                        }
                    }
                }
            }
        }
        let facts = w.facts()?;
        check_constraints(&facts)?;
    }
    Ok(())
}

fn run09(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let file = s.bool();
    let dir = if file { Some(ctx.dir()) } else { None };
    let mut w = match &dir {
        Some(d) => World::open_file(&d.join("s.db"))?,
        None => World::mem()?,
    };
    let defs = gen_schema(s, 1, 5);
    w.install(&defs, ctx)?;
    let n = s.size(4, if tier.thorough { 20 } else { 12 });
    let (mut acc, mut rej) = (0, 0);
    for _ in 0..n {
        if s.chance(1, 6) {
            let mut m = w.m.clone();
            ctx.note("begin");
            let mut ip = w.store.begin_transaction().map_err(es)?;
            for _ in 0..s.size(1, 3) {
                let ok = s.chance(2, 3);
                let t = evolving_tx(s, &m, 60, ok);
                match transact_ip(&mut ip, &mut m, &t, ctx)? {
                    Some(ef) => acc += is_alter(&ef) as u64,
                    None => rej += 1,
                }
                check_schema(&ip.schema, &m)?;
            }
            if s.chance(3, 4) {
                ip.commit().map_err(es)?;
                ctx.note("commit");
                w.m = m;
            } else {
                drop(ip);
                ctx.note("dropped");
            }
        } else {
            let ok = s.chance(1, 2);
            let t = evolving_tx(s, &w.m, 65, ok);
            match w.transact_noted(&t, ctx)? {
                Some(ef) => acc += is_alter(&ef) as u64,
                None => rej += 1,
            }
        }
        check_schema(&w.store.conn().current_schema(), &w.m)?;
        if file && s.chance(1, 12) {
            reopen(&mut w, &dir, ctx)?;
        }
    }
    if file {
        reopen(&mut w, &dir, ctx)?;
        let t = evolving_tx(s, &w.m, 50, true);
        w.transact_noted(&t, ctx)?;
        check_schema(&w.store.conn().current_schema(), &w.m)?;
    }
    if acc > 0 {
        ctx.label("accepted alteration");
    }
    if rej > 0 {
        ctx.label("refused");
    }
    ctx.nontrivial = acc >= 2 || (acc >= 1 && rej >= 1);
    Ok(())
}

pub fn reopen(w: &mut World, dir: &Option<std::path::PathBuf>, ctx: &mut Ctx) -> Result<(), String> {
    ctx.note("reopen");
    ctx.label("reopened");
    let p = dir.as_ref().unwrap().join("s.db");
    let mem = World::mem()?;
    let old = std::mem::replace(w, mem);
    let m = old.m;
    drop(old.store);
    let mut store = mentat::Store::open(p.to_str().unwrap()).map_err(|e| format!("the store cannot be opened again: {}", e))?;
    let facts = db::read_facts(store.sqlite_mut())?;
    if let Some(d) = db::diff_facts(&m.facts, &facts) {
        return Err(format!("after reopening: {}", d));
    }
    check_schema(&store.conn().current_schema(), &m).map_err(|e| format!("after reopening: {}", e))?;
    // Ids handed out but never stored are not known to a reopened store.
    let mut m = m;
    m.next_user = next_user_of(store.sqlite_mut())?;
    m.next_max = m.next_user;
    *w = World { store, m };
    skip_dangling(w, ctx)
}

/// An id known only as a value is handed out again after reopening (a known finding of P05), and
/// what is new cannot be told from what is not then. Use such ids up first.
pub fn skip_dangling(w: &mut World, ctx: &mut Ctx) -> Result<(), String> {
    let top = w.m.facts.keys().filter_map(|(_, _, v)| if let V::Ref(r) = v { Some(*r) } else { None }).filter(|r| *r >= w.m.next_user && *r < w.m.next_user + 200).max();
    if let Some(top) = top {
        ctx.label("ids known only as values before reopening");
        let n = top - w.m.next_user + 1;
        let t: Vec<Ent> = (0..n).map(|i| Ent::add(Ep::Temp(format!("pad{:03}", i)), ":db/doc", Vp::Val(V::Str("pad".into())))).collect();
        w.transact_noted(&t, ctx)?;
    }
    Ok(())
}

fn fixed09() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn nohist(ctx: &mut Ctx) -> CaseResult {
        let d = ctx.dir();
        let mut w = World::open_file(&d.join("s.db"))?;
        let mut a = Attr::new(Vt::Long);
        a.nohist = true;
        w.install(&[AttrDef { ident: ":t/a".into(), attr: a }], ctx)?;
        reopen(&mut w, &Some(d), ctx)
    }
    fn keep_unique(ctx: &mut Ctx) -> CaseResult {
        let mut w = World::mem()?;
        let mut a = Attr::new(Vt::Ref);
        a.unique = Some(Uniq::Identity);
        a.index = true;
        w.install(&[AttrDef { ident: ":t/a".into(), attr: a }], ctx)?;
        w.transact_noted(&[Ent::add(Ep::Ident(":t/a".into()), ":db/isComponent", Vp::Val(V::Bool(true)))], ctx)?;
        check_schema(&w.store.conn().current_schema(), &w.m)
    }
    fn invalid(ctx: &mut Ctx) -> CaseResult {
        let d = ctx.dir();
        let mut w = World::open_file(&d.join("s.db"))?;
        w.install(&[AttrDef { ident: ":t/a".into(), attr: Attr::new(Vt::Long) }], ctx)?;
        w.transact_noted(&[Ent::add(Ep::Ident(":t/a".into()), ":db/isComponent", Vp::Val(V::Bool(true)))], ctx)?;
        w.transact_noted(&[Ent::add(Ep::Ident(":t/a".into()), ":db/unique", Vp::Val(V::kw(":db.unique/value")))], ctx)?;
        reopen(&mut w, &Some(d), ctx)
    }
    fn moved(ctx: &mut Ctx) -> CaseResult {
        let mut w = World::mem()?;
        w.install(&[AttrDef { ident: ":t/a".into(), attr: Attr::new(Vt::Long) }, AttrDef { ident: ":t/b".into(), attr: Attr::new(Vt::Str) }], ctx)?;
        let (a, b) = (w.m.idents[":t/a"], w.m.idents[":t/b"]);
        w.transact_noted(&[Ent::add(Ep::Id(a), ":db/ident", Vp::Val(V::kw(":t/b"))), Ent::add(Ep::Id(b), ":db/ident", Vp::Val(V::kw(":t/a")))], ctx)?;
        check_schema(&w.store.conn().current_schema(), &w.m)?;
        w.transact_noted(&[Ent::add(Ep::Id(a), ":db/ident", Vp::Val(V::kw(":t/c"))), Ent::add(Ep::Id(b), ":db/ident", Vp::Val(V::kw(":t/b")))], ctx)?;
        check_schema(&w.store.conn().current_schema(), &w.m)
    }
    vec![
        ("noHistory survives reopening", nohist as fn(&mut Ctx) -> CaseResult),
        ("altering one property keeps uniqueness", keep_unique),
        ("an invalid alteration is refused", invalid),
        ("idents move between entities", moved),
    ]
}
