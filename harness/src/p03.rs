//! P03 (nothing is left of abandoned work) and P26 (batching): twin stores.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p02::is_alter;
use crate::vals::*;
use crate::world::*;
use mentat::{CacheAction, CacheDirection, Store};

pub static PROP: Prop = Prop {
    id: "P03",
    rule: "Two stores get the same committed transactions (each with its own explicit instant); one of them also gets abandoned work in between and in the middle of batches: transactions the rules refuse, malformed text, in-progress transactions dropped or rolled back after accepted and refused transactions, schema changes and cache changes, savepoints rolled back, and statements made to fail inside SQLite part way through a transact (by a temporary trigger or an interrupt). After every step, and inside the open batch after each abandoned part, all persisted tables, schema and idents of the two are compared, as are the ids handed out by later transactions, and lookups and queries answered with and without caches. Non-trivial: some abandoned work had taken effect (at least one accepted transaction or injected fault) and a later transaction was committed.",
    quick_cases: 6000,
    thorough_cases: 60000,
    run,
    fixed: no_fixed,
    known: no_fixed,
    assumptions: &["the store in which nothing was abandoned is itself right (P01, P02, P09)"],
};

/// Two stores that should be the same.
pub struct Twin {
    pub a: World,
    pub b: Store,
    pub clock: i64,
}

impl Twin {
    pub fn new() -> Result<Twin, String> {
        let mut a = World::mem()?;
        let mut b = Store::open("").map_err(es)?;
        // The bootstrap transaction is dated by the wall clock.
        for c in [a.store.sqlite_mut(), b.sqlite_mut()] {
            for t in ["datoms", "timelined_transactions"] {
                c.execute(&format!("UPDATE {} SET v = 1000 WHERE a = 3 AND tx = {}", t, TX0), rusqlite::params![]).map_err(es)?;
            }
        }
        a.m = read_model(a.store.sqlite_mut())?;
        Ok(Twin { a, b, clock: 1_600_000_000_000_000 })
    }

    /// The transaction with an explicit instant, so that the twins record the same.
    pub fn dated(&mut self, t: &[Ent]) -> Vec<Ent> {
        self.clock += 1_000_000;
        let mut t = t.to_vec();
        t.push(Ent::add(Ep::Tx, ":db/txInstant", Vp::Val(V::Inst(self.clock))));
        t
    }

    pub fn compare(&mut self, what: &str) -> Result<(), String> {
        let (da, db_) = (db::dump(self.a.store.sqlite_mut())?, db::dump(self.b.sqlite_mut())?);
        if let Some(d) = db::diff_dump(&db_, &da) {
            return Err(format!("{}: the store differs from one that never saw the abandoned work ('before'): {}", what, d));
        }
        let (sa, sb) = (self.a.store.conn().current_schema(), self.b.conn().current_schema());
        check!(*sa == *sb, "{}: schemas differ", what);
        check_schema(&sa, &self.a.m).map_err(|e| format!("{}: {}", what, e))?;
        let (la, lb) = (self.a.store.last_tx_id(), self.b.last_tx_id());
        check!(la == lb, "{}: last_tx_id {} and {}", what, la, lb);
        Ok(())
    }
}

pub fn same_report(a: &mentat::TxReport, b: &mentat::TxReport) -> Result<(), String> {
    check!(a.tx_id == b.tx_id && a.tx_instant == b.tx_instant, "tx {} at {} and tx {} at {}", a.tx_id, a.tx_instant, b.tx_id, b.tx_instant);
    check!(a.tempids == b.tempids, "the same transaction hands out different ids: {:?} and {:?}", a.tempids, b.tempids);
    Ok(())
}

pub fn cache_op(s: &mut Src, m: &Model) -> Option<(mentat::Keyword, CacheDirection, CacheAction, String)> {
    let defs = defs_of(m);
    if defs.is_empty() {
        return None;
    }
    let d = s.pick(&defs);
    let (dir, dn) = match s.below(3) {
        0 => (CacheDirection::Forward, "forward"),
        1 => (CacheDirection::Reverse, "reverse"),
        _ => (CacheDirection::Both, "both"),
    };
    let (act, an) = if s.chance(1, 4) { (CacheAction::Deregister, "uncache") } else { (CacheAction::Register, "cache") };
    Some((keyword(&d.ident), dir, act, format!("{} {} {}", an, d.ident, dn)))
}

pub const MALFORMED: [&str; 6] = ["[", "[[:db/add \"t\" :db/doc]]", "{:db/doc \"x\"}", "[[:db/add \"t\" :db/doc \"x\"]", "[[:db/add nil :db/doc 1]]", "[[:db/frob \"t\" :db/doc \"x\"]]"];

unsafe extern "C" fn tick(p: *mut libc::c_void) -> libc::c_int {
    let left = &mut *(p as *mut i64);
    *left -= 1;
    (*left < 0) as libc::c_int
}

/// Sets (or clears) an interrupt after about `n`*5 virtual machine instructions.
pub struct Interrupt(*mut rusqlite::ffi::sqlite3, Box<i64>);
impl Interrupt {
    pub fn after(c: &rusqlite::Connection, n: i64) -> Interrupt {
        let mut b = Box::new(n);
        let h = unsafe { c.handle() };
        unsafe { rusqlite::ffi::sqlite3_progress_handler(h, 5, Some(tick), &mut *b as *mut i64 as *mut libc::c_void) };
        Interrupt(h, b)
    }
    pub fn fired(&self) -> bool {
        *self.1 < 0
    }
}
impl Drop for Interrupt {
    fn drop(&mut self) {
        unsafe { rusqlite::ffi::sqlite3_progress_handler(self.0, 0, None, std::ptr::null_mut()) };
    }
}

fn trigger_sql(s: &mut Src) -> String {
    let when = *s.pick(&["BEFORE", "AFTER"]);
    let (table, op) = *s.pick(&[("datoms", "INSERT"), ("datoms", "DELETE"), ("timelined_transactions", "INSERT")]);
    let row = if op == "DELETE" { "OLD" } else { "NEW" };
    let k = 1 + s.below(3);
    let cond = match s.below(3) {
        0 => "1".to_string(),
        1 => format!("{}.e % {} = 0", row, k),
        _ => format!("{}.a > 65535 AND {}.e % {} = 0", row, row, k),
    };
    let how = *s.pick(&["ABORT", "FAIL"]);
    format!("CREATE TEMP TRIGGER vh_fault {} {} ON main.{} WHEN {} BEGIN SELECT RAISE({}, 'injected'); END", when, op, table, cond, how)
}

/// A transact that fails inside SQLite; Ok(true) if it did fail.
fn faulty(ip: &mut mentat::InProgress, m: &Model, s: &mut Src, ctx: &mut Ctx) -> Result<bool, String> {
    let sql = trigger_sql(s);
    let t = evolving_tx(s, m, 20, true);
    let text = tx_edn(&t);
    ctx.note(format!("  [fault] {}\n  [in progress] {}", sql, text));
    ip.transaction.execute(&sql, rusqlite::params![]).map_err(es)?;
    ip.savepoint("vh_outer").map_err(es)?;
    let r = ip.transact(text.as_str());
    let failed = r.is_err();
    if failed {
        ctx.note(format!("  => {}", clip_line(&es(r.err().unwrap()))));
        ctx.label("transact failed inside SQLite");
    } else {
        // The fault did not strike: undo it with the savepoint.
        ip.rollback_savepoint("vh_outer").map_err(es)?;
        ctx.label("fault did not strike");
    }
    ip.release_savepoint("vh_outer").map_err(es)?;
    ip.transaction.execute("DROP TRIGGER temp.vh_fault", rusqlite::params![]).map_err(es)?;
    Ok(failed)
}

fn refused(s: &mut Src, m: &Model) -> Option<String> {
    if s.chance(1, 4) {
        return Some(s.pick(&MALFORMED[..]).to_string());
    }
    let mut g = TxGen::new(&defs_of(m));
    g.bad = 200;
    for _ in 0..4 {
        let t = if s.chance(1, 3) { evolving_tx(s, m, 100, false) } else { g.tx(s, m) };
        if m.plan(&t).is_err() {
            return Some(tx_edn(&t));
        }
    }
    None
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = Twin::new()?;
    let defs = gen_schema(s, 3, 7);
    let t = w.dated(&schema_ents(&defs));
    both(&mut w, &t, ctx)?;
    for _ in 0..s.size(0, 3) {
        if let Some((k, d, _, n)) = cache_op(s, &w.a.m) {
            ctx.note(&n);
            w.a.store.cache(&k, d).map_err(es)?;
        }
    }
    let n = s.size(3, if tier.thorough { 12 } else { 7 });
    let mut abandoned = false;
    for _ in 0..n {
        match s.weighted(&[3, 2, 5, 4]) {
            0 => {
                let t = evolving_tx(s, &w.a.m, 15, true);
                let t = w.dated(&t);
                both(&mut w, &t, ctx)?;
                ctx.nontrivial |= abandoned;
            }
            1 => {
                if let Some(text) = refused(s, &w.a.m) {
                    ctx.note(format!("refused: {}", text));
                    let r = w.a.store.transact(text.as_str());
                    check!(r.is_err(), "accepted although it breaks a rule: {}", text);
                }
            }
            2 => {
                // Abandoned altogether.
                ctx.note("begin (to abandon)");
                let before = w.a.m.clone();
                let mut m = w.a.m.clone();
                let interrupt = s.chance(1, 4);
                let n = if interrupt { 1 + s.below(3000) as i64 } else { 0 };
                let i = if interrupt { Some(Interrupt::after(w.a.store.sqlite_mut(), n)) } else { None };
                {
                    let ip = w.a.store.begin_transaction();
                    match ip {
                        Err(e) => check!(i.is_some(), "begin_transaction failed: {}", e),
                        Ok(mut ip) => {
                            for _ in 0..s.size(1, 4) {
                                if i.is_some() {
                                    let t = evolving_tx(s, &m, 20, true);
                                    let text = tx_edn(&t);
                                    ctx.note(format!("  [interrupt] {}", text));
                                    match ip.transact(text.as_str()) {
                                        Ok(_) => {
                                            m = read_model(&ip.transaction).unwrap_or(m);
                                            abandoned = true;
                                        }
                                        Err(_) => {
                                            if i.as_ref().map_or(false, |i| i.fired()) {
                                                ctx.label("interrupted");
                                                abandoned = true;
                                            }
                                            break;
                                        }
                                    }
                                } else {
                                    abandoned |= step(&mut ip, &mut m, s, ctx)?;
                                }
                            }
                            drop(i);
                            if s.bool() {
                                ctx.note("rollback");
                                ip.rollback().map_err(es).or_else(|e| if n > 0 { Ok(()) } else { Err(e) })?;
                            } else {
                                ctx.note("drop");
                                drop(ip);
                            }
                        }
                    }
                }
                w.a.m = before;
                ctx.label("abandoned batch");
            }
            _ => {
                // A batch that commits, with abandoned parts.
                ctx.note("begin (to commit)");
                let mut m = w.a.m.clone();
                let mut keep: Vec<Vec<Ent>> = vec![];
                let mut reports = vec![];
                let mut clock = w.clock;
                {
                    let mut ip = w.a.store.begin_transaction().map_err(es)?;
                    for _ in 0..s.size(2, 5) {
                        match s.weighted(&[3, 2, 2, 3]) {
                            0 => {
                                let t = evolving_tx(s, &m, 15, true);
                                clock += 1_000_000;
                                let mut t = t;
                                t.push(Ent::add(Ep::Tx, ":db/txInstant", Vp::Val(V::Inst(clock))));
                                let text = tx_edn(&t);
                                ctx.note(format!("  [in progress] {}", text));
                                let plan = m.plan(&t).map_err(|e| format!("harness: {}", e))?;
                                let rep = ip.transact(text.as_str()).map_err(|e| format!("rejected '{}' but the rules accept it: {}", e, text))?;
                                let facts = db::read_facts(&ip.transaction)?;
                                reconcile(&mut m, plan, &rep.tempids, rep.tx_id, micros(&rep.tx_instant), &facts)?;
                                reports.push(rep);
                                keep.push(t);
                                ctx.nontrivial |= abandoned;
                            }
                            1 => {
                                if let Some(text) = refused(s, &m) {
                                    ctx.note(format!("  refused: {}", text));
                                    check!(ip.transact(text.as_str()).is_err(), "accepted although it breaks a rule: {}", text);
                                    ctx.label("refused inside a batch");
                                }
                            }
                            2 => {
                                abandoned |= faulty(&mut ip, &m, s, ctx)?;
                            }
                            _ => {
                                let nested = s.chance(1, 3);
                                ctx.note("  savepoint");
                                ip.savepoint("sp").map_err(es)?;
                                let mut m2 = m.clone();
                                for _ in 0..s.size(1, 3) {
                                    abandoned |= step(&mut ip, &mut m2, s, ctx)?;
                                }
                                if nested {
                                    ip.savepoint("sp2").map_err(es)?;
                                    abandoned |= step(&mut ip, &mut m2, s, ctx)?;
                                    if s.bool() {
                                        ip.release_savepoint("sp2").map_err(es)?;
                                    }
                                }
                                ip.rollback_savepoint("sp").map_err(es)?;
                                if s.chance(3, 4) {
                                    ip.release_savepoint("sp").map_err(es)?;
                                }
                                ctx.note("  rollback to savepoint");
                                ctx.label("savepoint rolled back");
                            }
                        }
                        let facts = db::read_facts(&ip.transaction)?;
                        if let Some(d) = db::diff_facts(&m.facts, &facts) {
                            return Err(format!("inside the open transaction: {}", d));
                        }
                        check_schema(&ip.schema, &m)?;
                        check!(ip.last_tx_id() == m.next_tx - 1, "last_tx_id is {} inside the open transaction, not {}", ip.last_tx_id(), m.next_tx - 1);
                        check_lookups(&ip, &m, s, 3)?;
                    }
                    ip.commit().map_err(es)?;
                }
                ctx.note("commit");
                w.a.m = m;
                w.clock = clock;
                for (t, ra) in keep.iter().zip(reports.iter()) {
                    let rb = w.b.transact(tx_edn(t).as_str()).map_err(|e| format!("only the store without abandoned work rejects: {}", e))?;
                    same_report(ra, &rb)?;
                }
                if keep.is_empty() {
                    // An empty commit changes nothing.
                }
            }
        }
        w.compare("after a step")?;
        check_lookups(&w.a.store, &w.a.m, s, 3)?;
    }
    let t = evolving_tx(s, &w.a.m, 0, true);
    let t = w.dated(&t);
    both(&mut w, &t, ctx)?;
    ctx.nontrivial |= abandoned;
    w.compare("at the end")
}

pub fn both(w: &mut Twin, t: &[Ent], ctx: &mut Ctx) -> Result<(), String> {
    let text = tx_edn(t);
    ctx.note(&text);
    let plan = w.a.m.plan(t).map_err(|e| format!("harness: {}", e))?;
    let ra = w.a.store.transact(text.as_str()).map_err(|e| format!("rejected after abandoned work: {}\n{}", e, text))?;
    let rb = w.b.transact(text.as_str()).map_err(|e| format!("rejected by the store without abandoned work: {}\n{}", e, text))?;
    same_report(&ra, &rb)?;
    let facts = w.a.facts()?;
    reconcile(&mut w.a.m, plan, &ra.tempids, ra.tx_id, micros(&ra.tx_instant), &facts)?;
    Ok(())
}

/// One step of work to be abandoned. True if something took effect.
fn step(ip: &mut mentat::InProgress, m: &mut Model, s: &mut Src, ctx: &mut Ctx) -> Result<bool, String> {
    match s.weighted(&[6, 1, 2]) {
        0 => {
            let ok = !s.chance(1, 4);
            let t = evolving_tx(s, m, 30, ok);
            let r = transact_ip(ip, m, &t, ctx)?;
            if let Some(ef) = &r {
                if is_alter(ef) {
                    ctx.label("schema change abandoned");
                }
            }
            Ok(r.is_some())
        }
        1 => {
            if let Some((k, d, a, n)) = cache_op(s, m) {
                ctx.note(format!("  {}", n));
                ip.cache(&k, d, a).map_err(es)?;
                ctx.label("cache change abandoned");
            }
            Ok(false)
        }
        _ => faulty(ip, m, s, ctx),
    }
}

pub static P26: Prop = Prop {
    id: "P26",
    rule: "The same list of 2-8 transactions (data, schema changes, refused ones, each dated) is run on one store in in-progress transactions of random extent, with savepoints opened and released (in part nested), caches registered, and lookups and queries in between, and on a twin store each transaction by itself. After every transaction the open transaction's facts, schema, idents, last transaction id, lookups and the report (transaction id, instant, every tempid) are compared with the twin's; after each commit all persisted tables, logs and schemas. Non-trivial: a batch of at least two accepted transactions of which one builds on ids or schema of an earlier one.",
    quick_cases: 6000,
    thorough_cases: 60000,
    run: run26,
    fixed: no_fixed,
    known: no_fixed,
    assumptions: &["transactions run one by one are right (P01, P02)"],
};

fn run26(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = Twin::new()?;
    let defs = gen_schema(s, 3, 7);
    let in_batch = s.chance(1, 3);
    if !in_batch {
        let t = w.dated(&schema_ents(&defs));
        both(&mut w, &t, ctx)?;
    }
    let rounds = s.size(1, if tier.thorough { 5 } else { 3 });
    for round in 0..rounds {
        ctx.note("begin");
        let mut m = w.a.m.clone();
        let mut clock = w.clock;
        let mut accepted = 0;
        let base_next = m.next_user;
        let b = &mut w.b;
        {
            let mut ip = w.a.store.begin_transaction().map_err(es)?;
            let mut open: Vec<String> = vec![];
            let n = s.size(2, 8);
            for i in 0..n {
                match s.below(8) {
                    0 => {
                        let name = format!("s{}", open.len());
                        ctx.note(format!("  savepoint {}", name));
                        ip.savepoint(&name).map_err(es)?;
                        open.push(name);
                    }
                    1 if !open.is_empty() => {
                        // Releasing an outer savepoint releases those within.
                        let k = s.idx(open.len());
                        ctx.note(format!("  release {}", open[k]));
                        ip.release_savepoint(&open[k]).map_err(es)?;
                        open.truncate(k);
                        ctx.label("savepoint released");
                    }
                    2 => {
                        if let Some((k, d, a, n)) = cache_op(s, &m) {
                            ctx.note(format!("  {}", n));
                            ip.cache(&k, d, a).map_err(es)?;
                        }
                    }
                    _ => {}
                }
                clock += 1_000_000;
                let mut t = if in_batch && round == 0 && i == 0 {
                    schema_ents(&defs)
                } else {
                    let ok = !s.chance(1, 6);
                    evolving_tx(s, &m, 20, ok)
                };
                t.push(Ent::add(Ep::Tx, ":db/txInstant", Vp::Val(V::Inst(clock))));
                let text = tx_edn(&t);
                ctx.note(format!("  {}", text));
                let plan = m.plan(&t);
                let ra = ip.transact(text.as_str());
                let rb = b.transact(text.as_str());
                match (ra, rb) {
                    (Ok(ra), Ok(rb)) => {
                        same_report(&ra, &rb)?;
                        if let Ok(ef) = plan {
                            let facts = db::read_facts(&ip.transaction)?;
                            if accepted > 0 && (is_alter(&ef) || ef.mentioned.iter().any(|(e, _, _, _)| *e >= base_next && *e < TX0 && m.allocated(*e))) {
                                ctx.nontrivial = true;
                            }
                            reconcile(&mut m, ef, &ra.tempids, ra.tx_id, micros(&ra.tx_instant), &facts)?;
                        } else {
                            return Err(format!("accepted although it breaks a rule: {}", text));
                        }
                        accepted += 1;
                    }
                    (Err(e), Err(_)) => {
                        ctx.note(format!("  => rejected: {}", clip_line(&es(e))));
                        ctx.label("refused in both");
                    }
                    (Ok(_), Err(e)) => return Err(format!("accepted inside a batch, but rejected by itself with '{}': {}", e, text)),
                    (Err(e), Ok(_)) => return Err(format!("rejected inside a batch with '{}', but accepted by itself: {}", e, text)),
                }
                let fa = db::read_facts(&ip.transaction)?;
                let fb = db::read_facts(b.sqlite_mut())?;
                if let Some(d) = db::diff_facts(&fb, &fa) {
                    return Err(format!("inside the batch, against the same transactions committed one by one: {}", d));
                }
                check!(ip.schema == *b.conn().current_schema(), "schema inside the batch differs from that of the store which committed one by one");
                check!(ip.last_tx_id() == b.last_tx_id(), "last_tx_id {} inside the batch, {} one by one", ip.last_tx_id(), b.last_tx_id());
                check_lookups(&ip, &m, s, 3)?;
                if s.chance(1, 4) {
                    ip.use_caching(s.bool());
                }
            }
            ip.commit().map_err(es)?;
        }
        ctx.note("commit");
        w.a.m = m;
        w.clock = clock;
        w.compare("after the batch")?;
        check_lookups(&w.a.store, &w.a.m, s, 3)?;
        if accepted >= 2 {
            ctx.label("batch of several");
        }
    }
    Ok(())
}
