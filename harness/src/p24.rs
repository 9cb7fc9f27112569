//! P24: several connections to one file see only complete, committed states.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::fail;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::vals::*;
use crate::world::*;
use mentat::{CacheDirection, InProgress, IntoResult, Keyword, Pullable, Queryable, Store};
use mentat_transaction::InProgressRead;
use rusqlite::ffi;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::Duration;

pub static PROP: Prop = Prop {
    id: "P24",
    rule: "Three kinds of histories over two or three stores open on one file. Schedules: begin a read, read, end it, begin a write, transact (data and schema changes, accepted and refused), commit, roll back, one-shot transactions and queries, caching and reopening, interleaved arbitrarily between the stores while reads and a write are held open; each read must show exactly the committed state of one moment from its beginning to its end (raw facts, lookups and queries, cached attributes among them), writes work on the latest committed state or are refused, and never while another is open. Injections: while one connection opens the file, runs a query, a pull, lookups or a transaction, another commits after a generated number of SQLite virtual machine steps; the outcome must be that of the state before or the one after. Races: threads with stores of their own increment counters and read them; no read shows unequal counters, they never go back, and at the end they count the successful commits. Non-trivial: a commit happened while another store held a read open or after another had loaded its metadata, and something was read or refused after.",
    quick_cases: 9000,
    thorough_cases: 120000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &[
        "a store whose schema is not that of the file any more is only asked about attributes that are the same in both",
        "writes of an outdated store are refused; one that brought itself up to date would be accepted too",
        "stores do not wait for each other (no busy timeout)",
    ],
};

fn open(p: &Path) -> Result<Store, String> {
    let mut st = Store::open(p.to_str().unwrap()).map_err(|e| format!("Store::open failed: {}", e))?;
    st.sqlite_mut().busy_timeout(Duration::from_secs(0)).map_err(es)?;
    Ok(st)
}

/// Every new entity gets a fact of its own: an id known only as a value is handed out again by
/// stores opened later (a known finding of P05).
fn anchored(m: &Model, mut t: Vec<Ent>) -> Vec<Ent> {
    if let Ok(ef) = m.plan(&t) {
        for (name, id) in &ef.tempids {
            if ef.fresh.contains(id) && !ef.added.iter().any(|d| d.0 == *id) {
                t.push(Ent::add(Ep::Temp(name.clone()), ":db/doc", Vp::Val(V::s("here"))));
            }
        }
    }
    t
}

enum Slot {
    Idle,
    Read(InProgressRead<'static, 'static>, Option<Model>),
    Write(InProgress<'static, 'static>, Model),
}

/// A store and what is open on it.
struct Peer {
    st: *mut Store,
    slot: Slot,
    /// The state its metadata is of.
    at: Model,
    cached: BTreeSet<String>,
}

impl Peer {
    fn new(p: &Path, hub: &Model) -> Result<Peer, String> {
        let mut st = open(p)?;
        let mut at = hub.clone();
        at.next_tx = st.conn().last_tx_id() + 1;
        at.next_user = next_user_of(st.sqlite_mut())?;
        at.next_max = at.next_user;
        check_schema(&st.conn().current_schema(), hub)?;
        Ok(Peer { st: Box::into_raw(Box::new(st)), slot: Slot::Idle, at, cached: BTreeSet::new() })
    }
    /// Only while nothing is open on it.
    fn store(&mut self) -> &'static mut Store {
        assert!(if let Slot::Idle = self.slot { true } else { false });
        unsafe { &mut *self.st }
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.slot = Slot::Idle;
        unsafe { drop(Box::from_raw(self.st)) };
    }
}

/// What a store with the schema of `own` can be asked about `m`.
fn shared(m: &Model, own: &Model) -> Model {
    let mut r = m.clone();
    r.schema.retain(|e, a| own.schema.get(e) == Some(a));
    let schema = &r.schema;
    r.idents.retain(|k, e| own.idents.get(k) == Some(e) && schema.contains_key(e));
    r
}

fn same_facts(c: &rusqlite::Connection, m: &Model, what: &str) -> CaseResult {
    let facts = db::read_facts(c)?;
    if let Some(d) = db::diff_facts(&m.facts, &facts) {
        fail!("{}: {}", what, d);
    }
    Ok(())
}

fn look<Q: Queryable>(q: &Q, m: &Model, own: &Model, cached: &BTreeSet<String>, s: &mut Src, what: &str) -> CaseResult {
    let m = shared(m, own);
    let at = |e: String| format!("{}: {}", what, e);
    check_lookups(q, &m, s, 2).map_err(at)?;
    // What is cached, all of it.
    for k in cached {
        if let Some(a) = m.idents.get(k) {
            let want: BTreeSet<(i64, V)> = m.facts.keys().filter(|f| f.1 == *a).map(|f| (f.0, f.2.clone())).collect();
            for e in want.iter().map(|x| x.0).collect::<BTreeSet<_>>() {
                let got: BTreeSet<V> = q.lookup_values_for_attribute(e, &keyword(k)).map_err(es)?.iter().map(V::of).collect();
                let want: BTreeSet<V> = want.iter().filter(|x| x.0 == e).map(|x| x.1.clone()).collect();
                check!(got == want, "{}: {} {} is {:?}, not {:?}", what, e, k, got, want);
            }
        }
    }
    Ok(())
}

fn keyword(k: &str) -> Keyword {
    let i = k.find('/').unwrap();
    Keyword::namespaced(&k[1..i], &k[i + 1..])
}

fn schedule(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let p = ctx.dir().join("s.db");
    let mut w = World::open_file(&p)?;
    w.install(&gen_schema(s, 2, 6), ctx)?;
    let t = evolving_tx(s, &w.m, 0, true);
        let t = anchored(&w.m, t);
    w.transact_noted(&t, ctx)?;
    let mut hub = w.m.clone();
    drop(w);
    let n = s.size(2, 3);
    let mut peers: Vec<Peer> = vec![];
    for _ in 0..n {
        peers.push(Peer::new(&p, &hub)?);
    }
    hub.next_user = next_user_of(peers[0].store().sqlite_mut())?;
    hub.next_max = hub.next_user;
    let ops = s.size(6, if tier.thorough { 60 } else { 36 });
    let (mut during, mut after) = (false, false);
    for _ in 0..ops {
        let i = s.idx(n);
        let busy = peers.iter().enumerate().any(|(j, p)| j != i && if let Slot::Write(..) = p.slot { true } else { false });
        let outdated = peers[i].at.next_tx != hub.next_tx;
        let slot = std::mem::replace(&mut peers[i].slot, Slot::Idle);
        match slot {
            Slot::Idle => match s.weighted(&[5, 6, 3, 3, 1, 2]) {
                0 => {
                    let rd = peers[i].store().begin_read().map_err(|e| format!("begin_read fails: {}", e))?;
                    ctx.note(format!("{}: begin read", i));
                    let mut snap = None;
                    if s.bool() {
                        same_facts(&rd.in_progress.transaction, &hub, "a read just begun")?;
                        snap = Some(hub.clone());
                    }
                    // Where nothing has been read yet, the state at the beginning will do as well.
                    peers[i].slot = Slot::Read(rd, snap);
                    if outdated {
                        ctx.label("read with outdated metadata");
                        after = true;
                    }
                }
                1 => {
                    ctx.note(format!("{}: begin write", i));
                    match peers[i].store().begin_transaction() {
                        Err(e) => {
                            ctx.note(format!("  => {}", clip_line(&es(&e))));
                            check!(busy || outdated, "begin_transaction fails: {}", e);
                            ctx.label(if busy { "second write refused" } else { "outdated write refused" });
                            after = true;
                            same_facts(peers[i].store().sqlite_mut(), &hub, "after a refused write")?;
                        }
                        Ok(ip) => {
                            check!(!busy, "begin_transaction works while another write is open");
                            let mut m = hub.clone();
                            m.next_tx = hub.next_tx;
                            if !outdated {
                                m.next_user = peers[i].at.next_user;
                                m.next_max = peers[i].at.next_max;
                            }
                            same_facts(&ip.transaction, &m, "a write just begun")?;
                            peers[i].slot = Slot::Write(ip, m);
                        }
                    }
                }
                2 => {
                    ctx.note(format!("{}: look", i));
                    let st = peers[i].store();
                    same_facts(st.sqlite_mut(), &hub, "a look outside any transaction")?;
                    look(st, &hub, &peers[i].at, &peers[i].cached, s, "a look outside any transaction")?;
                    if outdated {
                        ctx.label("look with outdated metadata");
                        after = true;
                    }
                }
                3 => {
                    let mut m = peers[i].at.clone();
                    let t = evolving_tx(s, &m, 15, true);
        let t = anchored(&m, t);
                    let text = tx_edn(&t);
                    ctx.note(format!("{}: transact {}", i, text));
                    match peers[i].store().transact(&text) {
                        Err(e) => {
                            ctx.note(format!("  => {}", clip_line(&es(&e))));
                            check!(busy || outdated, "a transaction is refused: {}", e);
                            ctx.label(if busy { "second write refused" } else { "outdated write refused" });
                            after = true;
                        }
                        Ok(rep) => {
                            check!(!busy, "a transaction works while another write is open");
                            if outdated {
                                let next = (m.next_user, m.next_max);
                                m = hub.clone();
                                m.next_user = std::cmp::max(m.next_user, next.0);
                            }
                            let ef = m.plan(&t).map_err(|e| format!("a transaction is accepted although {}", e))?;
                            let facts = db::read_facts(peers[i].store().sqlite_mut())?;
                            reconcile(&mut m, ef, &rep.tempids, rep.tx_id, micros(&rep.tx_instant), &facts)?;
                            hub = m.clone();
                            hub.next_user = next_user_of(peers[i].store().sqlite_mut())?;
                            hub.next_max = hub.next_user;
                            peers[i].at = m;
                            during = true;
                        }
                    }
                    same_facts(peers[i].store().sqlite_mut(), &hub, "after a transaction")?;
                }
                4 => {
                    ctx.note(format!("{}: reopen", i));
                    peers[i] = Peer::new(&p, &hub)?;
                    check!(peers[i].at.next_tx == hub.next_tx, "a store just opened expects transaction {}, not {}", peers[i].at.next_tx, hub.next_tx);
                }
                _ => {
                    let ds = defs_of(&shared(&hub, &peers[i].at));
                    if let Some(d) = s.pick_opt(&ds).cloned() {
                        let dir = [CacheDirection::Forward, CacheDirection::Reverse, CacheDirection::Both][s.idx(3)];
                        ctx.note(format!("{}: cache {}", i, d.ident));
                        peers[i].store().cache(&keyword(&d.ident), dir).map_err(|e| format!("caching fails: {}", e))?;
                        peers[i].cached.insert(d.ident);
                        ctx.label("cached");
                    }
                }
            },
            Slot::Read(rd, snap) => match s.weighted(&[4, 2]) {
                0 => {
                    ctx.note(format!("{}: read", i));
                    let facts = db::read_facts(&rd.in_progress.transaction)?;
                    let snap = match snap {
                        Some(x) => {
                            if x.next_tx != hub.next_tx {
                                ctx.label("an older state read");
                                after = true;
                            }
                            x
                        }
                        None => {
                            // It is of some moment since the beginning.
                            let last = facts.values().max().cloned().unwrap_or(0);
                            if last + 1 == hub.next_tx {
                                hub.clone()
                            } else {
                                check!(last + 1 >= peers[i].at.next_tx, "a read shows a state older than its store");
                                let mut m = read_model(&rd.in_progress.transaction)?;
                                m.next_tx = last + 1;
                                // The committed state of that moment.
                                let want: BTreeMap<_, _> = hub.log.range(..last + 1).map(|(k, v)| (*k, v.clone())).collect();
                                check!(m.log == want, "a read shows transactions up to {}, and not as they were committed", last);
                                m
                            }
                        }
                    };
                    if let Some(d) = db::diff_facts(&snap.facts, &facts) {
                        fail!("a read: {}", d);
                    }
                    look(&rd, &snap, &peers[i].at, &peers[i].cached, s, "a read")?;
                    peers[i].slot = Slot::Read(rd, Some(snap));
                }
                _ => {
                    ctx.note(format!("{}: end read", i));
                    drop(rd);
                }
            },
            Slot::Write(mut ip, mut m) => match s.weighted(&[4, 1, 4, 2]) {
                0 => {
                    let t = evolving_tx(s, &m, 15, false);
        let t = anchored(&m, t);
                    transact_ip(&mut ip, &mut m, &t, ctx)?;
                    peers[i].slot = Slot::Write(ip, m);
                }
                1 => {
                    same_facts(&ip.transaction, &m, "inside a write")?;
                    let cached = peers[i].cached.clone();
                    look(&ip, &m, &m, &cached, s, "inside a write")?;
                    peers[i].slot = Slot::Write(ip, m);
                }
                2 => {
                    ctx.note(format!("{}: commit", i));
                    ip.commit().map_err(|e| format!("commit fails: {}", e))?;
                    if m.next_tx != hub.next_tx {
                        during |= peers.iter().enumerate().any(|(j, p)| j != i && (p.at.next_tx != m.next_tx));
                        if peers.iter().any(|p| if let Slot::Read(..) = p.slot { true } else { false }) {
                            ctx.label("commit beside a read");
                        }
                    }
                    peers[i].at = m.clone();
                    hub = m;
                    let st = peers[i].store();
                    hub.next_user = next_user_of(st.sqlite_mut())?;
                    hub.next_max = hub.next_user;
                }
                _ => {
                    ctx.note(format!("{}: roll back", i));
                    if s.bool() {
                        drop(ip);
                    } else {
                        ip.rollback().map_err(es)?;
                    }
                    ctx.label("rolled back");
                }
            },
        }
    }
    for p in peers.iter_mut() {
        p.slot = Slot::Idle;
    }
    drop(peers);
    let mut w = World::open_file(&p)?;
    if let Some(d) = db::diff_facts(&hub.facts, &w.m.facts) {
        fail!("at the end: {}", d);
    }
    check!(w.m.log == hub.log, "the log at the end isn't the committed transactions");
    check_schema(&w.store.conn().current_schema(), &hub)?;
    same_facts(w.store.sqlite_mut(), &hub, "at the end")?;
    ctx.label("schedule");
    ctx.nontrivial = during && after;
    Ok(())
}

/// Runs something in the middle of what SQLite does for a connection.
struct Inject<'a> {
    left: u64,
    action: Option<Box<dyn FnMut() -> Result<(), String> + 'a>>,
    result: Option<Result<(), String>>,
}

unsafe extern "C" fn tick(p: *mut libc::c_void) -> libc::c_int {
    let h = &mut *(p as *mut Inject);
    if h.left > 0 {
        h.left -= 1;
    } else if let Some(mut f) = h.action.take() {
        h.result = Some(f());
    }
    0
}

impl<'a> Inject<'a> {
    fn new(after: u64, f: Box<dyn FnMut() -> Result<(), String> + 'a>) -> Box<Inject<'a>> {
        Box::new(Inject { left: after, action: Some(f), result: None })
    }
    fn on(&mut self, c: &rusqlite::Connection) {
        unsafe { ffi::sqlite3_progress_handler(c.handle(), 1, Some(tick), self as *mut Inject as *mut libc::c_void) };
    }
}

fn off(c: &rusqlite::Connection) {
    unsafe { ffi::sqlite3_progress_handler(c.handle(), 0, None, std::ptr::null_mut()) };
}

#[derive(Clone, Debug)]
enum Ask {
    Query(String),
    Pull(Vec<i64>, Vec<i64>),
    Look(i64, String),
}

/// The answer in a form that can be compared.
fn answer<Q: Queryable + Pullable>(q: &Q, a: &Ask) -> Result<BTreeSet<String>, String> {
    Ok(match a {
        Ask::Query(t) => {
            let r = q.q_once(t.as_str(), None).into_rel_result().map_err(|e| format!("{} fails: {}", t, e))?;
            r.rows().map(|r| r.iter().map(binding).collect::<Vec<_>>().join(" | ")).collect()
        }
        Ask::Pull(es_, attrs) => {
            let r = q.pull_attributes_for_entities(es_.clone(), attrs.clone()).map_err(|e| format!("pull fails: {}", e))?;
            r.iter().filter(|(_, m)| !m.is_empty()).map(|(e, m)| format!("{} {}", e, binding(&mentat::Binding::Map(m.clone())))).collect()
        }
        Ask::Look(e, k) => q.lookup_values_for_attribute(*e, &keyword(k)).map_err(es)?.iter().map(|v| format!("{:?}", v)).collect(),
    })
}

fn binding(b: &mentat::Binding) -> String {
    use mentat::Binding::{Map, Scalar};
    match b {
        Scalar(v) => format!("{:?}", V::of(v)),
        Map(m) => {
            let mut parts: Vec<String> = m.iter().map(|(k, v)| format!("{} {}", k, binding(v))).collect();
            parts.sort();
            format!("{{{}}}", parts.join(", "))
        }
        mentat::Binding::Vec(vs) => {
            let mut parts: Vec<String> = vs.iter().map(binding).collect();
            parts.sort();
            format!("[{}]", parts.join(", "))
        }
    }
}

fn gen_ask(s: &mut Src, m: &Model) -> Ask {
    let defs: Vec<AttrDef> = defs_of(m).into_iter().filter(|d| m.idents[&d.ident] >= USER0).collect();
    let ents: Vec<i64> = m.facts.keys().map(|f| f.0).filter(|e| *e >= USER0 && *e < TX0).collect::<BTreeSet<_>>().into_iter().collect();
    let a = |s: &mut Src| s.pick(&defs).ident.clone();
    match s.below(6) {
        0 => {
            let (x, y) = (a(s), a(s));
            Ask::Query(format!("[:find ?e ?x ?y :where [?e {} ?x] [?e {} ?y]]", x, y))
        }
        1 => Ask::Query(format!("[:find ?e ?v :where [?e {} ?v]]", a(s))),
        2 | 3 => {
            let (x, y, z) = (a(s), a(s), a(s));
            let extra = if s.bool() { "*".to_string() } else { format!("{} {}", y, z) };
            Ask::Query(format!("[:find ?e (pull ?e [{}]) ?x :where [?e {} ?x]]", extra, x))
        }
        4 => {
            let mut es_: BTreeSet<i64> = (0..3).filter_map(|_| s.pick_opt(&ents).cloned()).collect();
            es_.insert(USER0);
            Ask::Pull(es_.into_iter().collect(), defs.iter().map(|d| m.idents[&d.ident]).collect())
        }
        _ => {
            let k = a(s);
            Ask::Look(s.pick_opt(&ents).cloned().unwrap_or(USER0), k)
        }
    }
}

fn inject(s: &mut Src, ctx: &mut Ctx, _tier: &Tier) -> CaseResult {
    let p = ctx.dir().join("s.db");
    let mut w = World::open_file(&p)?;
    w.store.sqlite_mut().busy_timeout(Duration::from_secs(0)).map_err(es)?;
    w.install(&gen_schema(s, 3, 6), ctx)?;
    for _ in 0..s.size(1, 4) {
        let t = evolving_tx(s, &w.m, 0, true);
        let t = anchored(&w.m, t);
        if !t.is_empty() {
            w.transact_noted(&t, ctx)?;
        }
    }
    let before = w.m.clone();
    let steps = s.size(0, 12);
    let at = s.below(1 << steps);
    match s.weighted(&[2, 6, 2]) {
        0 => {
            // The other opens the file.
            let alter = *s.pick(&[100, 100, 0]);
            let t = evolving_tx(s, &w.m, alter, true);
        let t = anchored(&w.m, t);
            let mut c = mentat::new_connection(p.to_str().unwrap()).map_err(es)?;
            c.busy_timeout(Duration::from_secs(0)).map_err(es)?;
            ctx.note(format!("connect, and after {} steps: {}", at, tx_edn(&t)));
            let conn;
            let fired;
            {
                let wp = &mut w;
                let mut inj = Inject::new(at, Box::new(move || wp.transact(&t).map(|_| ())));
                inj.on(&c);
                conn = mentat::Conn::connect(&mut c).map_err(|e| format!("connecting fails: {}", e));
                off(&c);
                fired = inj.result.is_some();
                if let Some(r) = inj.result {
                    r?;
                }
            }
            let mut conn = conn?;
            let last = conn.last_tx_id() + 1;
            ctx.note(format!("  => {}, next transaction {}", if fired { "done" } else { "not reached" }, last));
            let m = if last == w.m.next_tx {
                &w.m
            } else if last == before.next_tx {
                &before
            } else {
                fail!("a store just opened expects transaction {}, not {} or {}", last, before.next_tx, w.m.next_tx);
            };
            check_schema(&conn.current_schema(), m).map_err(|e| format!("a store opened around a commit, next transaction {}: {}", last, e))?;
            if m.next_tx != w.m.next_tx {
                if let Ok(_) = conn.transact(&mut c, "[[:db/add \"t\" :db/doc \"x\"]]") {
                    let t = Ent::add(Ep::Temp("t".into()), ":db/doc", Vp::Val(V::s("x")));
                    let facts = w.facts()?;
                    let mut m = w.m.clone();
                    let ef = m.plan(&[t])?;
                    m.apply(&ef, 0);
                    check!(facts.keys().filter(|f| f.1 != core::TX_INSTANT && f.0 < TX0).map(|f| &f.2).eq(m.facts.keys().filter(|f| f.1 != core::TX_INSTANT && f.0 < TX0).map(|f| &f.2)), "a write of a store opened before another's commit damaged that");
                }
                ctx.label("opened before a commit");
            }
            ctx.label("commit while opening");
            ctx.nontrivial = fired;
        }
        1 => {
            // The other asks something.
            let mut q = open(&p)?;
            let cached = s.chance(1, 3);
            if cached {
                let ds: Vec<AttrDef> = defs_of(&w.m).into_iter().filter(|d| w.m.idents[&d.ident] >= USER0).collect();
                let k = s.pick(&ds).ident.clone();
                ctx.note(format!("cache {}", k));
                q.cache(&keyword(&k), CacheDirection::Both).map_err(es)?;
            }
            let asks: Vec<Ask> = (0..1 + s.idx(2)).map(|_| gen_ask(s, &before)).collect();
            let control = open(&p)?;
            let mut pre = vec![];
            for a in &asks {
                pre.push(answer(&control, a)?);
            }
            let how = s.below(3);
            // Something that matters.
            let mut t = vec![];
            for _ in 0..4 {
                t.extend(evolving_tx(s, &w.m, 0, true));
                while !t.is_empty() && w.m.plan(&t).is_err() {
                    t.pop();
                }
            }
            let t = anchored(&w.m, t);
            ctx.note(format!("{} {:?}, and after {} steps: {}", ["in a read:", "in a read, committed before:", "outside:"][how as usize], asks, at, tx_edn(&t)));
            let mut got = vec![];
            let fired;
            if how == 2 {
                let wp = &mut w;
                let mut inj = Inject::new(at, Box::new(move || wp.transact(&t).map(|_| ())));
                inj.on(q.sqlite_mut());
                let r = answer(&q, &asks[0]);
                off(q.sqlite_mut());
                fired = inj.result.is_some();
                if let Some(r) = inj.result {
                    r?;
                }
                got.push(r?);
            } else {
                let mut t = Some(t);
                if how == 1 {
                    w.transact(&t.take().unwrap())?;
                }
                let rd = q.begin_read().map_err(es)?;
                let wp = &mut w;
                let mut inj = Inject::new(at, Box::new(move || t.take().map_or(Ok(()), |t| wp.transact(&t).map(|_| ()))));
                inj.on(&rd.in_progress.transaction);
                let r: Vec<Result<BTreeSet<String>, String>> = asks.iter().map(|a| answer(&rd, a)).collect();
                off(&rd.in_progress.transaction);
                drop(rd);
                fired = inj.result.is_some();
                if let Some(r) = inj.result {
                    r?;
                }
                for r in r {
                    got.push(r?);
                }
            }
            return compare(&p, &asks, &pre, got, how, fired, ctx);
        }
        _ => {
            // The other writes.
            let t = evolving_tx(s, &w.m, 20, false);
        let t = anchored(&w.m, t);
            let (mut c, mut conn) = open(&p)?.dismantle();
            let mut before = before;
            before.next_user = next_user_of(&c)?;
            before.next_max = before.next_user;
            let t2 = anchored(&w.m, evolving_tx(s, &w.m, 0, true));
            ctx.note(format!("transact {}, and after {} steps: {}", tx_edn(&t), at, tx_edn(&t2)));
            let text2 = tx_edn(&t2);
            let mut other = open(&p)?;
            let mut ok2 = false;
            let r;
            let fired;
            {
                let (o, ok2, text2) = (&mut other, &mut ok2, &text2);
                let mut inj = Inject::new(at, Box::new(move || { *ok2 = o.transact(text2).is_ok(); Ok(()) }));
                inj.on(&c);
                r = conn.transact(&mut c, tx_edn(&t));
                off(&c);
                fired = inj.result.is_some();
            }
            ctx.note(format!("  => {:?}, the other {}", r.as_ref().map(|r| r.tx_id).map_err(|e| clip_line(&es(e))), ok2));
            if r.is_ok() && ok2 {
                // One after the other: the second saw the first's work.
                let got = read_model(&c)?;
                check!(got.next_tx_count() == before.next_tx_count() + 2, "two transactions that succeeded left {} in the log", got.next_tx_count() as i64 - before.next_tx_count() as i64);
                ctx.label("both wrote");
            } else {
                let mut a = World { store: other, m: before.clone() };
                let facts = a.facts()?;
                if let Ok(rep) = &r {
                    let ef = a.m.plan(&t).map_err(|e| format!("a transaction is accepted although {}", e))?;
                    reconcile(&mut a.m, ef, &rep.tempids, rep.tx_id, micros(&rep.tx_instant), &facts)?;
                    ctx.label("one wrote");
                } else if ok2 {
                    let got = read_model(&c)?;
                    check!(got.next_tx_count() == before.next_tx_count() + 1, "a transaction that succeeded beside one refused left {} in the log", got.next_tx_count() as i64 - before.next_tx_count() as i64);
                    ctx.label("the other wrote");
                } else {
                    check!(!fired || a.m.plan(&t).is_err(), "both writes were refused");
                    same_facts(&c, &before, "after refused writes")?;
                    ctx.label("both refused");
                }
            }
            ctx.nontrivial = fired;
        }
    }
    Ok(())
}

impl Model {
    fn next_tx_count(&self) -> usize {
        self.log.len()
    }
}

fn compare(p: &Path, asks: &[Ask], pre: &[BTreeSet<String>], got: Vec<BTreeSet<String>>, how: u64, fired: bool, ctx: &mut Ctx) -> CaseResult {
    let fresh = open(p)?;
    let mut post = vec![];
    for a in asks {
        post.push(answer(&fresh, a)?);
    }
    let differ = post != pre;
    let is = |w: &[BTreeSet<String>]| got.iter().zip(w).all(|(g, w)| g == w);
    let ok = if how == 1 { is(&post) } else { is(&pre) || is(&post) };
    check!(ok, "answers {:?}; before the commit they are {:?}, after it {:?}", got, pre, post);
    ctx.label(["commit in a read", "commit before a read", "commit while asking"][how as usize]);
    if differ && fired {
        ctx.label("answers that differ");
        ctx.label(if is(&pre) { "answered from before" } else { "answered from after" });
    }
    ctx.nontrivial = differ && fired;
    Ok(())
}

fn race(s: &mut Src, ctx: &mut Ctx, _tier: &Tier) -> CaseResult {
    let p: PathBuf = ctx.dir().join("s.db");
    let k = s.size(2, 5);
    let writers = s.size(1, 3);
    let readers = s.size(1, 3);
    let n = s.size(3, 12);
    let cached = s.bool();
    ctx.note(format!("{} writers making {} increments of {} counters, {} readers{}", writers, n, k, readers, if cached { ", cached" } else { "" }));
    {
        let mut st = open(&p)?;
        st.transact("[{:db/ident :t/n :db/valueType :db.type/long :db/cardinality :db.cardinality/one} {:db/ident :t/k :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true}]").map_err(es)?;
        let t: Vec<String> = (0..k).map(|i| format!("{{:t/k {} :t/n 0}}", i)).collect();
        st.transact(&format!("[{}]", t.join(" "))).map_err(es)?;
    }
    fn counters<Q: Queryable>(q: &Q, k: usize) -> Result<i64, String> {
        let mut all = vec![];
        for i in 0..k {
            let v = coll(q, &format!("[:find [?n ...] :where [?e :t/k {}] [?e :t/n ?n]]", i))?;
            match v.as_slice() {
                [V::Long(x)] => all.push(*x),
                _ => fail!("counter {} is {:?}", i, v),
            }
        }
        check!(all.iter().all(|x| *x == all[0]), "a read shows counters {:?}", all);
        Ok(all[0])
    }
    let done = std::sync::atomic::AtomicUsize::new(0);
    let mut count = 0;
    std::thread::scope(|sc| -> CaseResult {
        let ws: Vec<_> = (0..writers)
            .map(|_| {
                let (p, done) = (&p, &done);
                sc.spawn(move || -> Result<usize, String> {
                    let r = (|| {
                        let mut ok = 0;
                        let mut st = open(p)?;
                        for _ in 0..n * 40 {
                            if ok == n {
                                break;
                            }
                            let r = (|| -> Result<bool, String> {
                                let mut ip = match st.begin_transaction() {
                                    Ok(ip) => ip,
                                    Err(_) => return Ok(false),
                                };
                                let x = counters(&ip, k)?;
                                let t: Vec<String> = (0..k).map(|i| format!("{{:t/k {} :t/n {}}}", i, x + 1)).collect();
                                ip.transact(format!("[{}]", t.join(" "))).map_err(|e| format!("an increment is refused: {}", e))?;
                                ip.commit().map_err(|e| format!("commit fails: {}", e))?;
                                Ok(true)
                            })()?;
                            if r {
                                ok += 1;
                            } else {
                                drop(st);
                                std::thread::sleep(Duration::from_micros(200));
                                st = open(p)?;
                            }
                        }
                        Ok(ok)
                    })();
                    done.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    r
                })
            })
            .collect();
        let rs: Vec<_> = (0..readers)
            .map(|j| {
                let (p, done) = (&p, &done);
                sc.spawn(move || -> CaseResult {
                    let mut st = open(p)?;
                    if cached {
                        st.cache(&keyword(":t/n"), CacheDirection::Both).map_err(es)?;
                    }
                    let mut last = 0;
                    loop {
                        let end = done.load(std::sync::atomic::Ordering::SeqCst) == writers;
                        let rd = st.begin_read().map_err(|e| format!("begin_read fails: {}", e))?;
                        let x = counters(&rd, k)?;
                        check!(x >= last, "a reader sees {} after {}", x, last);
                        last = x;
                        let y = counters(&rd, k)?;
                        check!(x == y, "a read shows {}, then {}", x, y);
                        drop(rd);
                        if j == 1 && last % 3 == 1 {
                            // A fresh store in between.
                            st = open(p)?;
                        }
                        if end {
                            return Ok(());
                        }
                    }
                })
            })
            .collect();
        for r in rs {
            r.join().map_err(|_| "a reader panicked".to_string())??;
        }
        for w in ws {
            count += w.join().map_err(|_| "a writer panicked".to_string())??;
        }
        Ok(())
    })?;
    let mut w = World::open_file(&p)?;
    let x = counters(&w.store, k)?;
    check!(x == count as i64, "{} increments were committed, and the counters are {}", count, x);
    check!(w.m.log.len() == 3 + count, "{} increments were committed, and the log has {} transactions", count, w.m.log.len());
    let mut lo = LogOracle { prev: BTreeMap::new() };
    let facts = w.facts()?;
    lo.check(&w.m.log, &facts, None)?;
    ctx.label("race");
    ctx.nontrivial = count > 1;
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    match s.weighted(&[12, 12, 1]) {
        0 => schedule(s, ctx, tier),
        1 => inject(s, ctx, tier),
        _ => race(s, ctx, tier),
    }
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    const SCHEMA: &str = "[{:db/ident :t/k :db/valueType :db.type/long :db/cardinality :db.cardinality/one :db/unique :db.unique/identity :db/index true} {:db/ident :t/n :db/valueType :db.type/long :db/cardinality :db.cardinality/one}]";
    fn write(p: &Path, tx: &str) -> CaseResult {
        open(p)?.transact(tx).map_err(es)?;
        Ok(())
    }
    fn outdated(ctx: &mut Ctx) -> CaseResult {
        let p = ctx.dir().join("s.db");
        write(&p, SCHEMA)?;
        let (mut a, mut b) = (open(&p)?, open(&p)?);
        a.transact("[{:t/k 1 :t/n 1}]").map_err(es)?;
        let facts = db::read_facts(a.sqlite_mut())?;
        if b.transact("[{:t/k 2 :t/n 2}]").is_err() {
            check!(db::read_facts(a.sqlite_mut())? == facts, "a refused write changed something");
        }
        let e: Vec<V> = coll(&open(&p)?, "[:find [?n ...] :where [?e :t/k 1] [?e :t/n ?n]]")?;
        check!(e == vec![V::Long(1)], "the entity of another's transaction has {:?}", e);
        if b.conn().last_tx_id() <= a.conn().last_tx_id() {
            a.transact("[{:t/k 3 :t/n 3}]").map_err(|e| format!("the store that is up to date can't write: {}", e))?;
        }
        Ok(())
    }
    fn torn(ctx: &mut Ctx) -> CaseResult {
        let p = ctx.dir().join("s.db");
        write(&p, SCHEMA)?;
        for i in 0..40 {
            let mut c = mentat::new_connection(p.to_str().unwrap()).map_err(es)?;
            let (conn, fired) = {
                let p = &p;
                let mut inj = Inject::new(i * 25, Box::new(move || write(p, &format!("[{{:db/ident :t/x{} :db/valueType :db.type/long :db/cardinality :db.cardinality/one}}]", i))));
                inj.on(&c);
                let conn = mentat::Conn::connect(&mut c);
                off(&c);
                (conn.map_err(es)?, inj.result.is_some())
            };
            let schema = conn.current_schema();
            let named = schema.ident_map.contains_key(&keyword(&format!(":t/x{}", i)));
            let attr = schema.ident_map.get(&keyword(&format!(":t/x{}", i))).map_or(false, |e| schema.attribute_map.contains_key(e));
            check!(named == attr, "a store opened around a commit knows the name of an attribute, not the attribute");
            let next = conn.last_tx_id();
            drop(conn);
            let now = open(&p)?.conn().last_tx_id();
            check!(!fired || named == (next == now), "a store opened around a commit has the schema and the ids of different states");
        }
        Ok(())
    }
    fn pull(ctx: &mut Ctx) -> CaseResult {
        let p = ctx.dir().join("s.db");
        write(&p, SCHEMA)?;
        write(&p, "[{:t/k 1 :t/n 0}]")?;
        for i in 0..40i64 {
            let mut st = open(&p)?;
            let before = i;
            let p = &p;
            let mut inj = Inject::new(i as u64, Box::new(move || write(p, &format!("[{{:t/k 1 :t/n {}}}]", i + 1))));
            inj.on(st.sqlite_mut());
            let r = answer(&st, &Ask::Query("[:find ?e ?n (pull ?e [:t/n]) :where [?e :t/k 1] [?e :t/n ?n]]".into()));
            off(st.sqlite_mut());
            let r = r?;
            if inj.result.is_none() {
                write(p, &format!("[{{:t/k 1 :t/n {}}}]", i + 1))?;
            }
            let row = r.iter().next().cloned().unwrap_or_default();
            let is = |n: i64| row.contains(&format!("| {} |", n)) && row.contains(&format!(":t/n {}}}", n));
            check!(r.len() == 1 && (is(before) || is(before + 1)), "a query beside a write gives {:?}", r);
        }
        Ok(())
    }
    fn cached(ctx: &mut Ctx) -> CaseResult {
        let p = ctx.dir().join("s.db");
        write(&p, SCHEMA)?;
        write(&p, "[{:t/k 1 :t/n 1}]")?;
        let mut st = open(&p)?;
        st.cache(&keyword(":t/n"), CacheDirection::Both).map_err(es)?;
        let e = match coll(&st, "[:find [?e ...] :where [?e :t/k 1]]")?.as_slice() {
            [V::Ref(e)] => *e,
            x => fail!("{:?}", x),
        };
        write(&p, "[{:t/k 1 :t/n 2}]")?;
        let two = Some(mentat::TypedValue::Long(2));
        check!(st.lookup_value_for_attribute(e, &keyword(":t/n")).map_err(es)? == two, "a lookup finds the value cached before another's commit");
        check!(coll(&st, &format!("[:find [?x ...] :where [{} :t/n ?x]]", e))? == vec![V::Long(2)], "a query finds the value cached before another's commit");
        let rd = st.begin_read().map_err(es)?;
        check!(rd.lookup_value_for_attribute(e, &keyword(":t/n")).map_err(es)? == two, "a read finds the value cached before another's commit");
        Ok(())
    }
    vec![("a write with outdated metadata", outdated), ("opening beside a commit", torn), ("a query with pulls beside a commit", pull), ("caches and the commits of others", cached)]
}
