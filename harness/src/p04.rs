//! P04: what was committed survives closing, reopening and crashing, and nothing else does.
//!
//! A crash is taken as a copy of the store's files at the moment of one of SQLite's own writes
//! (or unlinks or truncations), with that write left out or half done, exactly as a killed process
//! would leave them. SQLite lets an application replace its system calls; the replacement here
//! counts calls and copies the files when the count runs out, so that a case is deterministic.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p02::skip_dangling;
use crate::p10::check_query;
use crate::query::*;
use crate::vals::*;
use crate::world::*;
use rusqlite::ffi;
use std::cell::RefCell;
use std::os::raw::{c_char, c_int, c_void};
use std::path::{Path, PathBuf};
use std::sync::Once;

pub static PROP: Prop = Prop {
    id: "P04",
    rule: "Histories of 2-8 steps over an evolving schema on a file store: single transactions, batches committed or abandoned (with SQLite's page cache made so small, in some cases, that uncommitted pages reach the write-ahead log), clean closings and reopenings, and creation of the store itself. During any step the files may be copied at any of SQLite's writes, unlinks or truncations, that call left out or half done (a killed process); also between steps. A copy opened again must hold exactly the state of the last commit before or, if taken during a commit, after it: all tables, log, schema, idents, fulltext strings; then further transactions, lookups and queries on the copy are compared with the model continued from that state, and the copy may become the store the history goes on with. Non-trivial: a copy was taken inside a step (not between two), and transactions were accepted on it afterwards.",
    quick_cases: 4000,
    thorough_cases: 20000,
    run,
    fixed: no_fixed,
    known: no_fixed,
    assumptions: &[
        "a crash is the end of the process: what was written stays written, in order; lost or reordered writes of a power failure are SQLite's and the disk's affair",
        "ids handed out but stored nowhere in entity position may be handed out again after reopening (known finding of P05)",
    ],
};

// ---- Crash points ----

struct Tap {
    from: PathBuf,
    to: PathBuf,
    left: u64,
    /// How many 16ths of the fatal write are done.
    part: u64,
    fired: Option<&'static str>,
}

thread_local! {
    static TAP: RefCell<Option<Tap>> = RefCell::new(None);
}

const FILES: [&str; 3] = ["s.db", "s.db-wal", "s.db-journal"];

fn copy_files(from: &Path, to: &Path) {
    let _ = std::fs::create_dir_all(to);
    for f in FILES.iter() {
        let a = from.join(f);
        if a.exists() {
            std::fs::copy(&a, to.join(f)).expect("copy a store file");
        }
    }
}

/// Counts a call; true if the process "dies" here.
fn tick(half: impl FnOnce(u64), what: &'static str) {
    let _ = TAP.try_with(|t| {
        if let Ok(mut t) = t.try_borrow_mut() {
            if let Some(t) = t.as_mut() {
                if t.fired.is_none() {
                    if t.left == 0 {
                        half(t.part);
                        copy_files(&t.from, &t.to);
                        t.fired = Some(what);
                    } else {
                        t.left -= 1;
                    }
                }
            }
        }
    });
}

unsafe extern "C" fn my_write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    tick(
        |part| {
            let k = n as u64 * part / 16;
            if k > 0 {
                let at = libc::lseek(fd, 0, libc::SEEK_CUR);
                libc::pwrite(fd, buf as *const libc::c_void, k as usize, at);
            }
        },
        "write",
    );
    libc::write(fd, buf as *const libc::c_void, n)
}

unsafe extern "C" fn my_unlink(p: *const c_char) -> c_int {
    tick(|_| (), "unlink");
    libc::unlink(p)
}

unsafe extern "C" fn my_ftruncate(fd: c_int, n: libc::off_t) -> c_int {
    tick(|_| (), "truncation");
    libc::ftruncate(fd, n)
}

pub fn install_hooks() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| unsafe {
        ffi::sqlite3_initialize();
        let vfs = ffi::sqlite3_vfs_find(std::ptr::null());
        let set = (*vfs).xSetSystemCall.expect("xSetSystemCall");
        type P = ffi::sqlite3_syscall_ptr;
        for (name, f) in [
            ("write\0", std::mem::transmute::<*const (), P>(my_write as *const ())),
            ("unlink\0", std::mem::transmute::<*const (), P>(my_unlink as *const ())),
            ("ftruncate\0", std::mem::transmute::<*const (), P>(my_ftruncate as *const ())),
        ] {
            assert_eq!((set)(vfs, name.as_ptr() as *const c_char, f), ffi::SQLITE_OK, "replacing a system call");
        }
    });
}

fn arm(s: &mut Src, from: &Path, to: &Path) {
    let left = match s.weighted(&[3, 3, 2]) {
        0 => s.below(8),
        1 => s.below(40),
        _ => s.below(150),
    };
    let part = if s.bool() { 0 } else { s.below(16) };
    TAP.with(|t| *t.borrow_mut() = Some(Tap { from: from.into(), to: to.into(), left, part, fired: None }));
}

fn disarm() -> Option<&'static str> {
    TAP.with(|t| t.borrow_mut().take()).and_then(|t| t.fired)
}

// ---- The oracle ----

type Dump = std::collections::BTreeMap<String, Vec<String>>;

/// Without the instants of transactions: those of two stores created one after the other differ.
pub fn masked(d: &Dump) -> Dump {
    let key = format!("|Integer({})|", core::TX_INSTANT);
    d.iter()
        .map(|(k, rows)| {
            let rows = rows.iter().map(|r| if (k == "datoms" || k == "log") && r.contains(&key) { r.split('|').enumerate().map(|(i, c)| if i == 2 { "*" } else { c }).collect::<Vec<_>>().join("|") } else { r.clone() });
            (k.clone(), rows.collect())
        })
        .collect()
}

fn open_at(dir: &Path, m: &Model) -> Result<World, String> {
    let p = dir.join("s.db");
    let mut store = mentat::Store::open(p.to_str().unwrap()).map_err(|e| format!("the store left behind cannot be opened: {}", e))?;
    let mut m = m.clone();
    m.next_user = next_user_of(store.sqlite_mut())?;
    m.next_max = m.next_user;
    Ok(World { store, m })
}

struct Hist {
    w: World,
    dir: PathBuf,
    root: PathBuf,
    copies: usize,
    inside: bool,
    continued: bool,
    spill: bool,
    often: bool,
}

impl Hist {
    fn fresh_dir(&mut self) -> PathBuf {
        self.copies += 1;
        self.root.join(format!("copy{}", self.copies))
    }

    fn tune(&mut self) -> CaseResult {
        if self.spill {
            self.w.store.sqlite_mut().execute_batch("PRAGMA cache_size=10").map_err(es)?;
        }
        if self.often {
            // Checkpoints after every commit: crashes after the commit, too.
            self.w.store.sqlite_mut().execute_batch("PRAGMA wal_autocheckpoint=2").map_err(es)?;
        }
        Ok(())
    }

    /// Opens a copy taken at a moment between (or at) two states.
    fn judge(&mut self, s: &mut Src, ctx: &mut Ctx, to: &Path, what: &str, states: &[(&Dump, &Model)]) -> CaseResult {
        ctx.note(format!("open what is left after a crash ({})", what));
        let mut c = open_at(to, states[0].1).map_err(|e| format!("after a crash ({}): {}", what, e))?;
        let d = db::dump(c.store.sqlite_mut())?;
        let hit = states.iter().position(|(x, _)| db::diff_dump(x, &d).is_none());
        let i = match hit {
            Some(i) => i,
            None => {
                let ds: Vec<String> = states.iter().map(|(x, _)| db::diff_dump(x, &d).unwrap()).collect();
                fail!("after a crash ({}), the store is neither as before nor as after the commit: {}", what, ds.join("; against the state after: "));
            }
        };
        ctx.note(if i == 0 { "  => as before" } else { "  => as after" });
        ctx.label(if states.len() == 1 { "one state possible" } else if i == 0 { "crash lost the commit" } else { "crash kept the commit" });
        let (nu, nm) = (c.m.next_user, c.m.next_max);
        c.m = states[i].1.clone();
        c.m.next_user = nu;
        c.m.next_max = nm;
        check_schema(&c.store.conn().current_schema(), &c.m).map_err(|e| format!("after a crash ({}): {}", what, e))?;
        check!(c.store.last_tx_id() == c.m.next_tx - 1, "after a crash ({}), last_tx_id is {}, the last transaction is {}", what, c.store.last_tx_id(), c.m.next_tx - 1);
        self.go_on(s, ctx, &mut c)?;
        if s.chance(1, 3) {
            ctx.note("the history goes on with the copy");
            ctx.label("history goes on after the crash");
            self.w = c;
            self.dir = to.into();
            self.tune()?;
        } else {
            drop(c);
            let _ = std::fs::remove_dir_all(to);
        }
        Ok(())
    }

    /// Work on a reopened store must go as the model says.
    fn go_on(&mut self, s: &mut Src, ctx: &mut Ctx, c: &mut World) -> CaseResult {
        skip_dangling(c, ctx)?;
        let n = s.size(1, 3);
        for _ in 0..n {
            let ok = !s.chance(1, 5);
            let t = evolving_tx(s, &c.m, 15, ok);
            if c.transact_noted(&t, ctx)?.is_some() {
                self.continued = true;
            }
        }
        check_lookups(&c.store, &c.m, s, 3)?;
        let mut lo = LogOracle { prev: Log::new() };
        lo.check(&db::read_log(c.store.sqlite_mut(), &c.m.fts())?, &c.m.facts.clone(), None)?;
        // Queries about what is left of a removed attribute are another matter.
        if c.m.facts.keys().any(|k| !c.m.schema.contains_key(&k.1)) {
            return Ok(());
        }
        let qdb = Db::new(&c.m);
        let ents = TxGen::new(&defs_of(&c.m)).user_ents(&c.m);
        let mut qg = QGen::new(&qdb, ents);
        qg.full = true;
        qg.log = s.chance(1, 4);
        if let Some(q) = qg.query(s, 1, 3) {
            check_query(&c.store, &qdb, &q, ctx)?;
        }
        Ok(())
    }

    fn maybe_arm(&mut self, s: &mut Src) -> Option<PathBuf> {
        if s.chance(1, 2) {
            let to = self.fresh_dir();
            arm(s, &self.dir.clone(), &to);
            Some(to)
        } else {
            None
        }
    }
}

/// Creation of the store, with a crash in it.
fn create(s: &mut Src, ctx: &mut Ctx, root: &Path) -> Result<bool, String> {
    let from = root.join("new");
    let to = root.join("new-copy");
    std::fs::create_dir_all(&from).map_err(es)?;
    let left = if s.bool() { s.below(12) } else { s.below(60) };
    let part = if s.bool() { 0 } else { s.below(16) };
    TAP.with(|t| *t.borrow_mut() = Some(Tap { from: from.clone(), to: to.clone(), left, part, fired: None }));
    let r = World::open_file(&from.join("s.db")).and_then(|mut w| db::dump(w.store.sqlite_mut()).map(|d| masked(&d)));
    let fired = disarm();
    let want = r?;
    if let Some(what) = fired {
        ctx.note(format!("crash at {} {} (part {}) of creating the store", what, left, part));
        ctx.label("crash while creating the store");
        let mut c = World::open_file(&to.join("s.db")).map_err(|e| format!("after a crash while creating the store: {}", e))?;
        if let Some(d) = db::diff_dump(&want, &masked(&db::dump(c.store.sqlite_mut())?)) {
            fail!("a store whose creation was interrupted differs from a new one: {}", d);
        }
        let m = read_model(c.store.sqlite_mut())?;
        check_schema(&c.store.conn().current_schema(), &m)?;
        let defs = gen_schema(s, 1, 3);
        c.install(&defs, ctx)?;
        let ok = TxGen::new(&defs).ok_tx(s, &c.m);
        c.transact_noted(&ok, ctx)?;
        check!(c.store.last_tx_id() == c.m.next_tx - 1, "last_tx_id is {}, the last transaction is {}", c.store.last_tx_id(), c.m.next_tx - 1);
        return Ok(true);
    }
    Ok(false)
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    install_hooks();
    disarm();
    let r = guarded(|| run_(s, ctx, tier));
    disarm();
    r?
}

fn run_(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let root = ctx.dir();
    if s.chance(1, 6) {
        ctx.nontrivial = create(s, ctx, &root)?;
        return Ok(());
    }
    let dir = root.join("main");
    std::fs::create_dir_all(&dir).map_err(es)?;
    let w = World::open_file(&dir.join("s.db"))?;
    let mut h = Hist { w, dir, root, copies: 0, inside: false, continued: false, spill: s.chance(1, 3), often: s.chance(1, 3) };
    h.tune()?;
    if h.spill {
        ctx.label("small page cache");
    }
    let defs = gen_schema(s, 2, 7);
    h.w.install(&defs, ctx)?;
    let n = s.size(2, if tier.thorough { 14 } else { 8 });
    for _ in 0..n {
        let d0 = db::dump(h.w.store.sqlite_mut())?;
        let m0 = h.w.m.clone();
        let to = h.maybe_arm(s);
        let kind = s.weighted(&[6, 4, 3]);
        let r = step(s, ctx, &mut h, kind, &d0);
        let fired = disarm();
        r?;
        let d1 = db::dump(h.w.store.sqlite_mut())?;
        let m1 = h.w.m.clone();
        if let (Some(to), Some(what)) = (&to, fired) {
            h.inside = true;
            ctx.label(match (kind, what) {
                (0, _) => "crash inside a transaction",
                (1, _) => "crash inside a batch",
                _ => "crash while closing or reopening",
            });
            if what != "write" {
                ctx.label("crash at an unlink or truncation");
            }
            let what = format!("at a {} in the step above", what);
            if d0 == d1 {
                h.judge(s, ctx, to, &what, &[(&d1, &m1)])?;
            } else {
                h.judge(s, ctx, to, &what, &[(&d0, &m0), (&d1, &m1)])?;
            }
        } else if s.chance(1, 5) {
            let to = h.fresh_dir();
            copy_files(&h.dir, &to);
            ctx.label("crash between steps");
            h.judge(s, ctx, &to, "between steps", &[(&d1, &m1)])?;
        }
    }
    ctx.nontrivial = h.inside && h.continued;
    Ok(())
}

fn step(s: &mut Src, ctx: &mut Ctx, h: &mut Hist, kind: usize, d0: &Dump) -> CaseResult {
    match kind {
        0 => {
            let ok = !s.chance(1, 5);
            let t = evolving_tx(s, &h.w.m, 20, ok);
            h.w.transact_noted(&t, ctx)?;
        }
        1 => {
            let mut m = h.w.m.clone();
            let end = s.weighted(&[4, 1, 1]);
            let steps = s.size(1, 4);
            let mut taken = None;
            ctx.note(["begin (to commit)", "begin (to roll back)", "begin (to drop)"][end]);
            {
                let mut ip = h.w.store.begin_transaction().map_err(es)?;
                for _ in 0..steps {
                    let ok = !s.chance(1, 6);
                    let t = evolving_tx(s, &m, 20, ok);
                    transact_ip(&mut ip, &mut m, &t, ctx)?;
                }
                // What a crash right now leaves.
                if s.chance(1, 6) {
                    h.copies += 1;
                    let to = h.root.join(format!("copy{}", h.copies));
                    copy_files(&h.dir, &to);
                    taken = Some(to);
                }
                match end {
                    0 => ip.commit().map_err(es)?,
                    1 => ip.rollback().map_err(es)?,
                    _ => drop(ip),
                }
            }
            ctx.note("end");
            ctx.label(["batch committed", "batch rolled back", "batch dropped"][end]);
            let m0 = h.w.m.clone();
            if end == 0 {
                h.w.m = m;
            }
            if let Some(to) = taken {
                ctx.label("crash with a batch open");
                h.inside = true;
                ctx.note("(copied before the end)");
                // Judged beside the main history.
                let mut c = open_at(&to, &m0).map_err(|e| format!("after a crash with a batch open: {}", e))?;
                if let Some(d) = db::diff_dump(d0, &db::dump(c.store.sqlite_mut())?) {
                    fail!("after a crash with a batch open, the store is not as last committed: {}", d);
                }
                check_schema(&c.store.conn().current_schema(), &c.m)?;
                h.go_on(s, ctx, &mut c)?;
            }
        }
        _ => {
            ctx.note("close and reopen");
            ctx.label("closed and reopened");
            let mem = World::mem()?;
            let old = std::mem::replace(&mut h.w, mem);
            let m = old.m;
            drop(old.store);
            h.w = open_at(&h.dir, &m)?;
            let d = db::dump(h.w.store.sqlite_mut())?;
            if let Some(d) = db::diff_dump(d0, &d) {
                fail!("after closing and reopening: {}", d);
            }
            check_schema(&h.w.store.conn().current_schema(), &h.w.m).map_err(|e| format!("after reopening: {}", e))?;
            check!(h.w.store.last_tx_id() == h.w.m.next_tx - 1, "after reopening, last_tx_id is {}, the last transaction is {}", h.w.store.last_tx_id(), h.w.m.next_tx - 1);
            h.tune()?;
            skip_dangling(&mut h.w, ctx)?;
        }
    }
    Ok(())
}
