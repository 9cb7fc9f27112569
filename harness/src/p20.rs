//! P20: moving the last transactions off the main timeline restores the state before them.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::fail;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p02::skip_dangling;
use crate::vals::*;
use crate::world::*;
use mentat_db::timelines::move_from_main_timeline;
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "P20",
    rule: "Histories of 3-12 steps: transactions over an evolving schema (replaced, retracted and re-asserted values, fulltext, renames, alterations, removals of attributes, moves of unique values, explicit instants) and moves of the last 1-4 transactions to a fresh timeline, committed or dropped, after which the history goes on, tries other moves and reopens; and requests for ranges without transactions, used timelines and the main timeline. After a move all tables but the log equal those recorded when the moved transactions had not happened (the transaction of every fact included), the main log is that log, the moved rows are as they were on their new timeline, rows on other timelines are untouched, and schema, idents and id allocation are as then; refused requests change nothing, and so do moves that would undo what the schema rules don't let be undone (the reversed transactions are planned on the model). Non-trivial: a committed move of a transaction that replaced or retracted a fact or altered the schema, and an accepted transaction after it.",
    quick_cases: 3000,
    thorough_cases: 40000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["the transaction that creates the store is never moved", "a removed attribute leaves nothing of its definition behind (documented gap, mentat issue 796)"],
};

type Dump = BTreeMap<String, Vec<String>>;

/// The log of a timeline, or of all but the main one.
fn split_log(d: &Dump) -> (Vec<String>, Vec<String>) {
    d["log"].iter().cloned().partition(|r| r.ends_with("|Integer(0)|"))
}

fn state(w: &mut World) -> Result<Dump, String> {
    let mut d = db::dump(w.store.sqlite_mut())?;
    // Strings stay in the fulltext table when no fact has them any more.
    d.remove("fulltext");
    Ok(d)
}

fn next_on_main(c: &rusqlite::Connection) -> Result<i64, String> {
    let n: Option<i64> = c.query_row("SELECT MAX(e) FROM timelined_transactions WHERE timeline = 0 AND e >= ? AND e < ?", rusqlite::params![USER0, TX0], |r| r.get(0)).map_err(es)?;
    Ok(n.map_or(USER0, |x| x + 1))
}

fn do_move(w: &mut World, from: i64, timeline: i64, commit: bool) -> Result<Result<(), String>, String> {
    let mut ip = w.store.begin_transaction().map_err(es)?;
    let r = move_from_main_timeline(&ip.transaction, &ip.schema, ip.partition_map.clone(), from.., timeline);
    match r {
        Ok((schema, parts)) => {
            if let Some(x) = schema {
                ip.schema = x;
            }
            ip.partition_map = parts;
            if commit {
                ip.commit().map_err(es)?;
            } else {
                ip.rollback().map_err(es)?;
            }
            Ok(Ok(()))
        }
        Err(e) => {
            // What the failed request did to the database is dropped with it.
            drop(ip);
            Ok(Err(es(e)))
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let dir = ctx.dir();
    let path = dir.join("s.db");
    let file = s.chance(1, 3);
    let mut w = if file { World::open_file(&path)? } else { World::mem()? };
    let defs = gen_schema(s, 2, 7);
    // (state, model) before each transaction still on the main timeline, oldest first.
    let mut past: Vec<(i64, Dump, Model, bool)> = vec![];
    let d = state(&mut w)?;
    past.push((w.m.next_tx, d, w.m.clone(), true));
    w.install(&defs, ctx)?;
    let mut timeline = 0;
    let mut moved = false;
    let n = s.size(3, if tier.thorough { 20 } else { 12 });
    for _ in 0..n {
        match s.weighted(&[6, 3, 1, 1]) {
            0 => {
                let ok = !s.chance(1, 6);
                let t = evolving_tx(s, &w.m, 25, ok);
                let d = state(&mut w)?;
                let m = w.m.clone();
                if let Some(ef) = w.transact_noted(&t, ctx)? {
                    let weighty = !ef.removed.is_empty() || crate::p02::is_alter(&ef);
                    past.push((ef.tx, d, m, weighty));
                    if w.m.facts.keys().any(|k| k.0 >= USER0 && is_schema_attr(k.1) && k.1 != core::IDENT && !w.m.schema.contains_key(&k.0)) {
                        // A documented gap (mentat issue 796): what is left is ignored when the
                        // attribute is installed again.
                        ctx.label("definition left in part, history ends");
                        return Ok(());
                    }
                    if moved {
                        ctx.nontrivial = true;
                    }
                }
            }
            1 => {
                if past.is_empty() {
                    continue;
                }
                let k = s.size(1, 4.min(past.len()));
                let at = past.len() - k;
                let from = past[at].0;
                timeline += 1;
                let commit = s.chance(4, 5);
                ctx.note(format!("move transactions from {} to timeline {}{}", from, timeline, if commit { "" } else { ", rolled back" }));
                let before = state(&mut w)?;
                let no = irreversible(&w.m, &past[at..]);
                match (do_move(&mut w, from, timeline, commit)?, no) {
                    (Ok(()), None) => (),
                    (Ok(()), Some(why)) => fail!("the last {} transactions are moved although undoing them breaks a rule: {}", k, why),
                    (Err(e), None) => fail!("moving the last {} transactions from the main timeline fails: {}", k, e),
                    (Err(e), Some(why)) => {
                        ctx.note(format!("  => refused: {} (model: {})", clip_line(&e), why));
                        ctx.label("refused: not to be undone");
                        let after = state(&mut w)?;
                        if let Some(d) = db::diff_dump(&before, &after) {
                            fail!("a refused move changed the store: {}", d);
                        }
                        continue;
                    }
                }
                let after = state(&mut w)?;
                if !commit {
                    ctx.label("move rolled back");
                    if let Some(d) = db::diff_dump(&before, &after) {
                        fail!("after a move that was rolled back: {}", d);
                    }
                    check_schema(&w.store.conn().current_schema(), &w.m)?;
                    continue;
                }
                ctx.label(["", "one moved", "two moved", "three moved", "four moved"][k]);
                let weighty = past[at..].iter().any(|p| p.3);
                moved |= weighty;
                let (_, want, m, _) = past[at].clone();
                past.truncate(at);
                // The log.
                let (main0, other0) = split_log(&before);
                let (main1, other1) = split_log(&after);
                let (mainw, _) = split_log(&want);
                check!(main1 == mainw, "the main log after the move isn't the one before the moved transactions: {:?}", differ(&mainw, &main1));
                let gone: Vec<String> = main0.iter().filter(|r| !mainw.contains(r)).map(|r| format!("{}|Integer({})|", &r[..r.len() - "|Integer(0)|".len()], timeline)).collect();
                let mut other: Vec<String> = other0.into_iter().chain(gone).collect();
                other.sort();
                check!(other1 == other, "the other timelines after the move: {:?}", differ(&other, &other1));
                // The rest.
                let (mut a, mut b) = (want.clone(), after.clone());
                a.remove("log");
                b.remove("log");
                for x in [&mut a, &mut b] {
                    // The copy of the schema is made when the schema changes; saying what is the
                    // default anyway isn't a change.
                    x.get_mut("schema").unwrap().retain(|r| !r.ends_with("|Integer(0)|Integer(1)|"));
                }
                if let Some(d) = db::diff_dump(&a, &b) {
                    fail!("after moving {} transactions, the state isn't the one before them: {}", k, d);
                }
                w.m = m;
                check_schema(&w.store.conn().current_schema(), &w.m).map_err(|e| format!("after moving {} transactions: {}", k, e))?;
                w.m.next_user = next_on_main(w.store.sqlite_mut())?;
                w.m.next_max = w.m.next_user;
                after_gap(&mut w, &mut past, ctx)?;
                check_lookups(&w.store, &w.m, s, 3)?;
            }
            2 => {
                // Requests that can't be.
                let (from, tl, what) = match s.below(3) {
                    0 => (w.m.next_tx + s.below(5) as i64, timeline + 1, "a range without transactions"),
                    1 if timeline > 0 => match past.last() {
                        Some(p) if split_log(&state(&mut w)?).1.iter().any(|r| r.ends_with(&format!("|Integer({})|", timeline))) => (p.0, timeline, "a used timeline"),
                        _ => continue,
                    },
                    _ => match past.last() {
                        Some(p) => (p.0, 0, "the main timeline as the target"),
                        None => continue,
                    },
                };
                let before = state(&mut w)?;
                ctx.note(format!("move from {} to timeline {} ({})", from, tl, what));
                let mut ip = w.store.begin_transaction().map_err(es)?;
                let r = move_from_main_timeline(&ip.transaction, &ip.schema, ip.partition_map.clone(), from.., tl);
                check!(r.is_err(), "a move with {} is accepted", what);
                let t = evolving_tx(s, &w.m, 0, true);
                let mut m = w.m.clone();
                transact_ip(&mut ip, &mut m, &t, ctx)?;
                ip.rollback().map_err(es)?;
                let after = state(&mut w)?;
                if let Some(d) = db::diff_dump(&before, &after) {
                    fail!("a refused move changed the store: {}", d);
                }
                ctx.label("refused move");
            }
            _ => {
                if !file {
                    continue;
                }
                ctx.note("reopen");
                ctx.label("reopened");
                let before = state(&mut w)?;
                let mem = World::mem()?;
                let old = std::mem::replace(&mut w, mem);
                let m = old.m;
                drop(old.store);
                let store = mentat::Store::open(path.to_str().unwrap()).map_err(es)?;
                w = World { store, m };
                let after = state(&mut w)?;
                if let Some(d) = db::diff_dump(&before, &after) {
                    fail!("after reopening: {}", d);
                }
                check_schema(&w.store.conn().current_schema(), &w.m)?;
                w.m.next_user = next_on_main(w.store.sqlite_mut())?;
                w.m.next_max = w.m.next_user;
                after_gap(&mut w, &mut past, ctx)?;
            }
        }
    }
    Ok(())
}

/// Undoing a transaction is a transaction, too, and schemas can't be altered in every way.
fn irreversible(now: &Model, past: &[(i64, Dump, Model, bool)]) -> Option<String> {
    let mut m = now;
    for (tx, _, before, _) in past.iter().rev() {
        let t: Vec<Ent> = m.log[tx]
            .iter()
            .filter(|d| !(d.0 == *tx && d.1 == core::TX_INSTANT))
            .map(|d| Ent::List(!d.3, Ep::Id(d.0), ARef { name: AName::Id(d.1), rev: false }, Vp::Val(d.2.clone())))
            .collect();
        // Definitions first.
        let (meta, data): (Vec<Ent>, Vec<Ent>) = t.into_iter().partition(|t| matches!(t, Ent::List(_, _, ARef { name: AName::Id(a), .. }, _) if is_schema_attr(*a)));
        let mut m2 = m.clone();
        for t in [meta, data].iter() {
            match m2.plan(t) {
                Ok(ef) => m2.apply(&ef, 0),
                Err(why) => return Some(why),
            }
        }
        m = before;
    }
    None
}

/// Ids known only as values (see P05), after which new ones can be told from old ones again.
fn after_gap(w: &mut World, past: &mut Vec<(i64, Dump, Model, bool)>, ctx: &mut Ctx) -> CaseResult {
    let (tx, m, d) = (w.m.next_tx, w.m.clone(), state(w)?);
    skip_dangling(w, ctx)?;
    if w.m.next_tx != tx {
        past.push((tx, d, m, false));
    }
    Ok(())
}

fn differ(want: &[String], got: &[String]) -> String {
    let a: std::collections::BTreeSet<_> = want.iter().collect();
    let b: std::collections::BTreeSet<_> = got.iter().collect();
    format!("missing {:?}; unexpected {:?}", a.difference(&b).take(4).collect::<Vec<_>>(), b.difference(&a).take(4).collect::<Vec<_>>())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![]
}
