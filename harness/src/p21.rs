//! P21: stores that synchronise through one remote log converge.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::fail;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p02::{is_alter, skip_dangling};
use crate::vals::*;
use crate::world::*;
use mentat_tolstoy::{GlobalTransactionLog, SyncFollowup, SyncReport, Syncer, Tx, TxPart};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use tolstoy_traits::errors::TolstoyError;
use uuid::Uuid;

pub static PROP: Prop = Prop {
    id: "P21",
    rule: "Histories of 4-14 steps over 2-3 stores (in memory or files) and one remote log: local transactions over an evolving schema (replaced, retracted and re-asserted values, fulltext, refs, transaction metadata, alterations, removals of attributes), syncs committed or rolled back, reopening, and calls to the remote that fail before it moved its head. In half of the histories stores catch up before they work: after each sync a store has exactly the facts, log, schema and idents of the one history (bar the instant of its own first transaction), and what it does next never reuses an entity's id. In the others they work apart: what a sync merges is predicted from the documented rules on the model (the local transactions go on top of the remote ones, entities they assert about are those with the same identity or else new ones, attributes are identified by ident, retractions need a unique value, no-ops vanish, differing definitions are refused) and compared up to the ids of new entities; a refused or failed sync changes nothing. After every sync that leaves nothing to do another finds nothing, and in the end all stores agree. Non-trivial: a store took over at least two transactions of another and worked on, or a merge put a local transaction that did something on top of remote ones.",
    quick_cases: 2500,
    thorough_cases: 40000,
    run,
    fixed,
    known,
    assumptions: &["the remote log is linear: nothing moves its head during a sync", "a sync that moved the remote head is committed locally (documented gap)"],
};

pub struct Remote {
    head: Uuid,
    chunks: HashMap<Uuid, TxPart>,
    txs: HashMap<Uuid, (Uuid, Vec<TxPart>)>,
    /// Calls until one fails.
    fail_in: Cell<Option<usize>>,
    failed: Cell<bool>,
}

type R<T> = Result<T, public_traits::errors::MentatError>;

impl Remote {
    pub fn new() -> Remote {
        Remote { head: Uuid::nil(), chunks: HashMap::new(), txs: HashMap::new(), fail_in: Cell::new(None), failed: Cell::new(false) }
    }
    fn call(&self) -> R<()> {
        if let Some(n) = self.fail_in.get() {
            if n == 0 {
                self.fail_in.set(None);
                self.failed.set(true);
                return Err(TolstoyError::BadRemoteState("the remote is out of reach".into()).into());
            }
            self.fail_in.set(Some(n - 1));
        }
        Ok(())
    }
}

impl GlobalTransactionLog for Remote {
    fn head(&self) -> R<Uuid> {
        self.call()?;
        Ok(self.head)
    }
    fn transactions_after(&self, tx: &Uuid) -> R<Vec<Tx>> {
        self.call()?;
        let mut out = vec![];
        let mut at = self.head;
        while at != *tx {
            match self.txs.get(&at) {
                Some((parent, parts)) => {
                    out.push(Tx { tx: at, parts: parts.clone() });
                    at = *parent;
                }
                None => return Err(TolstoyError::BadRemoteState(format!("{} isn't behind the head", tx)).into()),
            }
        }
        out.reverse();
        Ok(out)
    }
    fn set_head(&mut self, tx: &Uuid) -> R<()> {
        self.call()?;
        assert!(self.txs.contains_key(tx), "head moved to an unknown transaction");
        self.head = *tx;
        Ok(())
    }
    fn put_transaction(&mut self, tx: &Uuid, parent: &Uuid, chunks: &[Uuid]) -> R<()> {
        self.call()?;
        let parts = chunks.iter().map(|c| self.chunks[c].clone()).collect();
        self.txs.insert(*tx, (*parent, parts));
        Ok(())
    }
    fn put_chunk(&mut self, tx: &Uuid, payload: &TxPart) -> R<()> {
        self.call()?;
        self.chunks.insert(*tx, payload.clone());
        Ok(())
    }
}

enum Link {
    Mem(Remote),
    Http(Server),
}

const USER: &str = "316ea470-ce35-4adf-9c61-e0de6e289c59";

impl Link {
    fn sync(&mut self, w: &mut World, commit: bool) -> Result<Result<SyncReport, String>, String> {
        match self {
            Link::Mem(r) => sync(w, r, commit),
            Link::Http(srv) => sync(w, &mut mentat_tolstoy::RemoteClient::new(srv.url(), Uuid::parse_str(USER).unwrap()), commit),
        }
    }
    /// The n-th call from now fails.
    fn fail(&mut self, n: usize, how: usize) {
        match self {
            Link::Mem(r) => r.fail_in.set(Some(n)),
            Link::Http(srv) => {
                let mut p = srv.plan.lock().unwrap();
                p.fail_in = Some(n);
                p.fail_how = how;
            }
        }
    }
    /// Did it; none will.
    fn failed(&mut self) -> Result<bool, String> {
        match self {
            Link::Mem(r) => {
                r.fail_in.set(None);
                Ok(r.failed.replace(false))
            }
            Link::Http(srv) => {
                let mut p = srv.plan.lock().unwrap();
                p.fail_in = None;
                if let Some(b) = &p.bad {
                    fail!("a request the service can't make sense of: {}", b);
                }
                Ok(p.failed.take().is_some())
            }
        }
    }
}

struct St {
    w: World,
    path: Option<std::path::PathBuf>,
    /// The history as of the last sync.
    root: Option<Model>,
    /// No sync can succeed any more.
    stuck: bool,
}

fn sync<L: GlobalTransactionLog>(w: &mut World, r: &mut L, commit: bool) -> Result<Result<SyncReport, String>, String> {
    let mut ip = w.store.begin_transaction().map_err(es)?;
    match Syncer::sync(&mut ip, r) {
        Ok(rep) => {
            if commit {
                ip.commit().map_err(es)?;
            } else {
                ip.rollback().map_err(es)?;
            }
            Ok(Ok(rep))
        }
        Err(e) => {
            drop(ip);
            Ok(Err(es(e)))
        }
    }
}

fn state(w: &mut World) -> Result<BTreeMap<String, Vec<String>>, String> {
    db::dump(w.store.sqlite_mut())
}

/// The history with this store's own first transaction.
fn own_root(hub: &Model, w: &Model) -> Model {
    let mut m = hub.clone();
    let boot: Vec<(i64, i64, V)> = m.facts.keys().filter(|k| k.0 == TX0 && k.1 == core::TX_INSTANT).cloned().collect();
    for k in boot {
        m.facts.remove(&k);
        m.log.get_mut(&TX0).unwrap().remove(&(k.0, k.1, k.2, true));
    }
    for (k, tx) in w.facts.iter().filter(|(k, _)| k.0 == TX0 && k.1 == core::TX_INSTANT) {
        m.facts.insert(k.clone(), *tx);
        m.log.get_mut(&TX0).unwrap().insert((k.0, k.1, k.2.clone(), true));
    }
    m
}

fn first_tx() -> i64 {
    TX0 + 1
}

/// What is in the store is what the model says; afterwards the model allocates like the store.
fn same(w: &mut World, want: Model) -> CaseResult {
    let facts = w.facts()?;
    if let Some(d) = db::diff_facts(&want.facts, &facts) {
        fail!("the facts: {}", d);
    }
    let log = db::read_log(w.store.sqlite_mut(), &want.fts())?;
    for tx in want.log.keys().chain(log.keys()) {
        let none = BTreeSet::new();
        if let Some(d) = db::diff_sets(want.log.get(tx).unwrap_or(&none), log.get(tx).unwrap_or(&none)) {
            fail!("the log of {}: {}", tx, d);
        }
    }
    check_schema(&w.store.conn().current_schema(), &want)?;
    w.m = want;
    allocation(w)
}

/// Ids in use aren't handed out again.
fn allocation(w: &mut World) -> CaseResult {
    let max: Option<i64> = w
        .store
        .sqlite_mut()
        .query_row("SELECT MAX(e) FROM timelined_transactions WHERE timeline = 0 AND e >= ? AND e < ?", rusqlite::params![USER0, TX0], |r| r.get(0))
        .map_err(es)?;
    let ip = w.store.begin_transaction().map_err(es)?;
    let next = ip.partition_map.get(":db.part/user").unwrap().next_entid();
    let tx = ip.partition_map.get(":db.part/tx").unwrap().next_entid();
    ip.rollback().map_err(es)?;
    if let Some(max) = max {
        check!(next > max, "the next entity to be made would get the id {} although {} is in use", next, max);
    }
    check!(tx == w.m.next_tx, "the next transaction would be {}, not {}", tx, w.m.next_tx);
    w.m.next_user = next;
    w.m.next_max = next;
    Ok(())
}

/// What a local transaction becomes on top of `m`; None: nothing left of it.
fn rebase(m: &Model, next0: i64, parts: &BTreeSet<(i64, i64, V, bool)>, moved: &BTreeMap<i64, i64>) -> Result<(Vec<Ent>, BTreeSet<i64>), String> {
    let asserted: BTreeSet<i64> = parts.iter().filter(|d| d.3 && d.1 != core::TX_INSTANT).map(|d| d.0).collect();
    let mut schema = BTreeSet::new();
    let new: BTreeSet<i64> = parts.iter().filter(|d| d.1 == core::IDENT).filter(|d| if let V::Kw(k) = &d.2 { !m.idents.contains_key(k) } else { false }).map(|d| d.0).collect();
    let mut out = vec![];
    for (e, a, v, op) in parts {
        if *a == core::TX_INSTANT {
            continue;
        }
        if (*a == core::IDENT || is_schema_attr(*a)) && !new.contains(e) {
            schema.insert(*e);
        }
        // Ids that exist only since the stores went separate ways.
        let ours = |x: &i64| *x >= next0 && *x < TX0;
        let a = if ours(a) { *moved.get(a).ok_or("an attribute that came from nowhere")? } else { *a };
        let vp = match v {
            V::Ref(x) if !ours(x) => Vp::Val(V::Ref(*x)),
            V::Ref(x) if asserted.contains(x) || !moved.contains_key(x) => Vp::Temp(format!("{}", x)),
            V::Ref(x) => Vp::Val(V::Ref(moved[x])),
            v => Vp::Val(v.clone()),
        };
        let aref = ARef { name: AName::Id(a), rev: false };
        if asserted.contains(e) {
            out.push(Ent::List(*op, Ep::Temp(format!("{}", e)), aref, vp));
        } else if *op {
            unreachable!();
        } else {
            if m.schema.get(&a).map_or(true, |at| at.unique.is_none()) {
                continue;
            }
            let v = match vp {
                Vp::Val(v) => v,
                _ => continue,
            };
            if m.owners(a, &v).is_empty() {
                continue;
            }
            out.push(Ent::List(false, Ep::Lookup(AName::Id(a), v.clone()), aref, Vp::Val(v)));
        }
    }
    Ok((out, schema))
}

/// The id of the next new entity, and what a known finding makes of it: the id past those in the
/// last transaction of the remote history.
fn starts(hub: &Model, st: &St) -> (i64, i64) {
    let user = |e: i64| e >= USER0 && e < TX0;
    let low = hub.log.get(&(hub.next_tx - 1)).and_then(|ds| ds.iter().map(|d| d.0).filter(|e| user(*e)).max()).map_or(USER0, |x| x + 1);
    (std::cmp::max(st.w.m.next_user, hub.next_user), low)
}

/// The merged history: Err(why it can't be merged).
fn merge(hub: &Model, st: &St, next_user: i64) -> Result<(Model, usize), String> {
    let fresh = Model::from_store(st.w.m.facts.iter().filter(|(_, tx)| **tx == TX0).map(|(k, v)| (k.clone(), *v)).collect(), BTreeMap::new());
    let root = st.root.as_ref().unwrap_or(&fresh);
    let from = st.root.as_ref().map_or(first_tx(), |r| r.next_tx);
    // An id known only as a value counts as not handed out.
    let next0 = root.log.values().flatten().map(|d| d.0).filter(|e| *e >= USER0 && *e < TX0).max().map_or(USER0, |x| x + 1);
    let mut m = own_root(hub, &st.w.m);
    m.next_user = next_user;
    m.next_max = next_user;
    let mut moved: BTreeMap<i64, i64> = BTreeMap::new();
    let mut kept = 0;
    for (_, parts) in st.w.m.log.range(from..) {
        let (ents, schema) = rebase(&m, next0, parts, &moved)?;
        if ents.is_empty() {
            continue;
        }
        let ef = m.plan(&ents)?;
        for e in &schema {
            if let Some(r) = ef.tempids.get(&format!("{}", e)) {
                if ef.added.iter().chain(ef.removed.iter()).any(|d| d.0 == *r) {
                    return Err("a definition differs from the remote one".into());
                }
            }
        }
        for (t, id) in &ef.tempids {
            moved.insert(t.parse().unwrap(), *id);
        }
        if ef.added.is_empty() && ef.removed.is_empty() {
            continue;
        }
        kept += 1;
        m.apply(&ef, 0);
    }
    Ok((m, kept))
}

/// Facts and log with entities that aren't in `base` named by what is said about them.
fn canon(facts: &BTreeMap<(i64, i64, V), i64>, log: &BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>, base: &Model) -> (Vec<String>, Vec<String>) {
    let mut known: BTreeSet<i64> = BTreeSet::new();
    for d in base.log.values().flatten() {
        known.insert(d.0);
        known.insert(d.1);
        if let V::Ref(r) = d.2 {
            known.insert(r);
        }
    }
    let is_new = |e: i64| e >= USER0 && e < TX0 && !known.contains(&e);
    let mut color: BTreeMap<i64, u64> = BTreeMap::new();
    let hash = |s: &str| -> u64 {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        h
    };
    let name = |c: &BTreeMap<i64, u64>, e: i64| if is_new(e) { format!("new{:x}", c.get(&e).cloned().unwrap_or(0)) } else { format!("{}", e) };
    let value = |c: &BTreeMap<i64, u64>, a: i64, v: &V| match v {
        V::Ref(r) => name(c, *r),
        V::Inst(_) if a == core::TX_INSTANT => "now".to_string(),
        v => format!("{:?}", v),
    };
    for _ in 0..4 {
        let mut sig: BTreeMap<i64, Vec<String>> = BTreeMap::new();
        for (tx, ds) in log {
            for (e, a, v, op) in ds {
                let x = format!("{} {} {} {}", tx, name(&color, *a), value(&color, *a, v), op);
                if is_new(*e) {
                    sig.entry(*e).or_insert_with(Vec::new).push(format!("e {}", x));
                }
                if let V::Ref(r) = v {
                    if is_new(*r) {
                        sig.entry(*r).or_insert_with(Vec::new).push(format!("v {} {} {} {}", tx, name(&color, *e), name(&color, *a), op));
                    }
                }
            }
        }
        color = sig
            .into_iter()
            .map(|(e, mut s)| {
                s.sort();
                (e, hash(&s.join(";")))
            })
            .collect();
    }
    let mut fs: Vec<String> = facts.iter().map(|((e, a, v), tx)| format!("[{} {} {}] {}", name(&color, *e), name(&color, *a), if base.facts.contains_key(&(*e, *a, v.clone())) { format!("{:?}", v) } else { value(&color, *a, v) }, tx)).collect();
    fs.sort();
    let mut ls: Vec<String> = log
        .iter()
        .flat_map(|(tx, ds)| ds.iter().map(move |d| (tx, d)))
        .map(|(tx, (e, a, v, op))| format!("{}: [{} {} {} {}]", tx, name(&color, *e), name(&color, *a), if base.log.contains_key(tx) { format!("{:?}", v) } else { value(&color, *a, v) }, op))
        .collect();
    ls.sort();
    (fs, ls)
}

fn differ(what: &str, want: &[String], got: &[String]) -> CaseResult {
    if want != got {
        let w: Vec<&String> = want.iter().filter(|x| want.iter().filter(|y| y == x).count() > got.iter().filter(|y| y == x).count()).take(5).collect();
        let g: Vec<&String> = got.iter().filter(|x| got.iter().filter(|y| y == x).count() > want.iter().filter(|y| y == x).count()).take(5).collect();
        fail!("{} after the merge: missing {:?}; unexpected {:?}", what, w, g);
    }
    Ok(())
}

/// Transactions to merge: about entities only (not transactions or attributes), none of them
/// known only as a value (an upload doesn't account for those, see P05).
fn apart_tx(s: &mut Src, m: &Model) -> Vec<Ent> {
    if s.chance(1, 8) {
        // A new attribute.
        let i = s.idx(4);
        let vt = *s.pick(&[Vt::Long, Vt::Str, Vt::Ref]);
        let mut a = Attr::new(vt);
        a.many = s.chance(1, 4);
        if s.chance(1, 3) {
            a.unique = Some(Uniq::Identity);
            a.index = true;
        }
        let ident = format!(":z/n{}", i);
        if m.idents.contains_key(&ident) {
            return vec![];
        }
        let mut t = schema_ents(&[AttrDef { ident, attr: a }]);
        if s.bool() {
            if let Ent::Map(_, kvs) = &mut t[0] {
                kvs.reverse();
            }
        }
        return t;
    }
    let mut g = TxGen::new(&defs_of(m));
    g.bad = 0;
    g.retract_pct = 20;
    for _ in 0..4 {
        let t = reduce(g.tx(s, m), m);
        if t.is_empty() {
            continue;
        }
        if let Ok(ef) = m.plan(&t) {
            let fine = |x: i64| x < USER0 || (x >= USER0 && x < TX0 && !m.schema.contains_key(&x));
            if ef.added.iter().chain(ef.removed.iter()).all(|d| d.0 >= USER0 && fine(d.0) && !is_schema_attr(d.1) && if let V::Ref(r) = d.2 { fine(r) } else { true }) && ef.instant.is_none() && !is_alter(&ef) && ef.fresh.iter().all(|f| ef.added.iter().any(|d| d.0 == *f)) {
                return t;
            }
        }
    }
    vec![]
}

/// One sync of a store, compared with what it should do.
fn step(st: &mut St, hub: &mut Option<Model>, remote: &mut Link, s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let before = state(&mut st.w)?;
    if s.chance(1, 6) {
        let n = if s.bool() { s.idx(3) } else { s.idx(40) };
        let how = s.idx(4);
        remote.fail(n, how);
    }
    let first = st.root.is_none();
    let from = st.root.as_ref().map_or(first_tx(), |r| r.next_tx);
    let local = st.w.m.next_tx > from;
    let (was_empty, moved) = match &hub {
        None => (true, false),
        Some(h) => (false, h.next_tx > from),
    };
    let uploads = was_empty || (local && !moved);
    let commit = uploads || !s.chance(1, 10);
    let r = remote.sync(&mut st.w, commit)?;
    let failed = remote.failed()?;
    ctx.note(format!("  => {:?}{}", r.as_ref().map_err(|e| clip_line(e)), if commit { "" } else { ", rolled back" }));
    if failed {
        ctx.label("remote call fails");
        check!(r.is_err(), "a sync reports {:?} although a call to the remote failed", r);
        let after = state(&mut st.w)?;
        if let Some(d) = db::diff_dump(&before, &after) {
            fail!("a failed sync changed the store: {}", d);
        }
        return check_schema(&st.w.store.conn().current_schema(), &st.w.m);
    }
    let rep = match r {
        Ok(r) => r,
        Err(e) => {
            let after = state(&mut st.w)?;
            if let Some(d) = db::diff_dump(&before, &after) {
                fail!("a refused sync changed the store: {}", d);
            }
            check_schema(&st.w.store.conn().current_schema(), &st.w.m)?;
            if first && local && !was_empty && !moved {
                // Documented as not yet implemented.
                ctx.label("remote has nothing yet");
                return Ok(());
            }
            if local && moved {
                let (next, low) = starts(hub.as_ref().unwrap(), st);
                for n in &[next, low] {
                    if let Err(why) = merge(hub.as_ref().unwrap(), st, *n) {
                        ctx.note(format!("  (model: {})", why));
                        ctx.label(if *n == next { "can't be merged" } else { "can't be merged for a known finding" });
                        st.stuck = true;
                        return Ok(());
                    }
                }
            }
            fail!("a sync fails: {}", e);
        }
    };
    if !commit {
        ctx.label("sync rolled back");
        let after = state(&mut st.w)?;
        if let Some(d) = db::diff_dump(&before, &after) {
            fail!("a sync that was rolled back changed the store: {}", d);
        }
        return check_schema(&st.w.store.conn().current_schema(), &st.w.m);
    }
    let mut left = false;
    if uploads {
        check!(rep == SyncReport::RemoteFastForward, "work to upload, and the sync reports {:?}", rep);
        ctx.label("upload");
        let m = st.w.m.clone();
        same(&mut st.w, m)?;
        *hub = Some(st.w.m.clone());
        st.root = Some(st.w.m.clone());
    } else if !local {
        let want = own_root(hub.as_ref().unwrap(), &st.w.m);
        let expect = if first {
            SyncReport::Merge(SyncFollowup::None)
        } else if moved {
            SyncReport::LocalFastForward
        } else {
            SyncReport::NoChanges
        };
        check!(rep == expect, "the sync reports {:?}, expected {:?}", rep, expect);
        if moved {
            ctx.label(if first { "first download" } else { "download" });
        } else {
            ctx.label("nothing to do");
        }
        same(&mut st.w, want)?;
        st.root = Some(st.w.m.clone());
    } else {
        let hubm = hub.clone().unwrap();
        let (next, low) = starts(&hubm, st);
        let got = read_model(st.w.store.sqlite_mut())?;
        let base = own_root(&hubm, &st.w.m);
        let (gf, gl) = canon(&got.facts, &got.log, &base);
        let against = |n: i64| -> Result<(Model, usize), String> {
            let (m, kept) = merge(&hubm, st, n).map_err(|why| format!("a merge succeeds although {}", why))?;
            let expect = SyncReport::Merge(if kept > 0 { SyncFollowup::FullSync } else { SyncFollowup::None });
            check!(rep == expect, "the sync reports {:?}, expected {:?}", rep, expect);
            let (wf, wl) = canon(&m.facts, &m.log, &base);
            differ("the facts", &wf, &gf)?;
            differ("the log", &wl, &gl)?;
            Ok((m, kept))
        };
        let (m, kept) = match against(next) {
            Ok(x) => x,
            Err(e) => match against(low) {
                Ok(x) if low < next => {
                    ctx.label("ids in use given to new entities (known finding)");
                    x
                }
                _ => return Err(e),
            },
        };
        let mut got = got;
        got.next_tx = m.next_tx;
        st.w.m = got;
        check_schema(&st.w.store.conn().current_schema(), &st.w.m)?;
        allocation(&mut st.w)?;
        st.root = Some(base);
        ctx.label(if first { "first merge" } else { "merge" });
        ctx.label(["merged to nothing", "merged 1", "merged 2", "merged 3+"][kept.min(3)]);
        if kept > 0 {
            left = true;
            ctx.nontrivial = true;
        }
    }
    check_lookups(&st.w.store, &st.w.m, s, 2)?;
    if !left {
        let before = state(&mut st.w)?;
        let again = remote.sync(&mut st.w, true)?;
        check!(again == Ok(SyncReport::NoChanges), "an immediate second sync: {:?}", again);
        let after = state(&mut st.w)?;
        if let Some(d) = db::diff_dump(&before, &after) {
            fail!("an immediate second sync changed the store: {}", d);
        }
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(2, 3);
    let dir = ctx.dir();
    let mut sts = vec![];
    for i in 0..n {
        let path = if s.chance(1, 4) { Some(dir.join(format!("s{}.db", i))) } else { None };
        let w = match &path {
            Some(p) => World::open_file(p)?,
            None => World::mem()?,
        };
        sts.push(St { w, path, root: None, stuck: false });
    }
    let mut remote = if s.chance(1, 50) {
        ctx.label("over HTTP");
        Link::Http(Server::start()?)
    } else {
        Link::Mem(Remote::new())
    };
    let mut hub: Option<Model> = None;
    let apart = s.bool();
    ctx.label(if apart { "apart" } else { "in turn" });
    let defs = gen_schema(s, 2, 6);
    ctx.note(format!("{} stores", n));
    sts[0].w.install(&defs, ctx)?;
    if apart && s.chance(1, 3) {
        // The others have a schema of their own.
        for i in 1..n {
            let mut d: Vec<AttrDef> = defs.iter().filter(|_| s.chance(3, 4)).cloned().collect();
            if d.is_empty() {
                continue;
            }
            if s.chance(1, 5) {
                let k = s.idx(d.len());
                d[k].attr.many = !d[k].attr.many;
            }
            let p = s.permutation(d.len());
            let d: Vec<AttrDef> = p.into_iter().map(|k| d[k].clone()).collect();
            ctx.note(format!("store {}:", i));
            sts[i].w.install(&d, ctx)?;
        }
        ctx.label("schemas apart");
    } else {
        for i in 0..n {
            ctx.note(format!("sync store {}", i));
            step(&mut sts[i], &mut hub, &mut remote, s, ctx)?;
            if i == 0 && !apart && hub.is_none() {
                // The call failed; without this the others' work would have to be merged.
                step(&mut sts[i], &mut hub, &mut remote, &mut Src::replay(vec![]), ctx)?;
            }
        }
    }
    // The store with work that isn't uploaded.
    let mut owner: Option<usize> = None;
    let mut taken = 0;
    let steps = s.size(4, if tier.thorough { 24 } else { 14 });
    for _ in 0..steps {
        let i = s.idx(n);
        if sts[i].stuck {
            continue;
        }
        match s.weighted(&[6, 5, 1]) {
            0 if apart => {
                let k = s.size(1, 3);
                ctx.note(format!("work in store {}", i));
                for _ in 0..k {
                    let t = apart_tx(s, &sts[i].w.m);
                    if !t.is_empty() {
                        sts[i].w.transact_noted(&t, ctx)?;
                    }
                }
            }
            0 => {
                let i = owner.unwrap_or(i);
                let from = sts[i].w.m.next_tx;
                if owner.is_none() {
                    ctx.note(format!("sync store {} before work", i));
                    step(&mut sts[i], &mut hub, &mut remote, s, ctx)?;
                    let h = hub.as_ref().map_or(0, |h| h.next_tx);
                    if sts[i].root.is_none() || sts[i].w.m.next_tx != h {
                        continue;
                    }
                    taken = sts[i].w.m.next_tx - from;
                }
                ctx.note(format!("work in store {}", i));
                skip_dangling(&mut sts[i].w, ctx)?;
                for _ in 0..s.size(1, 3) {
                    let ok = !s.chance(1, 8);
                    let t = evolving_tx(s, &sts[i].w.m, 25, ok);
                    let w = &mut sts[i].w;
                    if w.transact_noted(&t, ctx)?.is_some() {
                        if taken >= 2 {
                            ctx.nontrivial = true;
                        }
                        if w.m.facts.keys().any(|k| k.0 >= USER0 && is_schema_attr(k.1) && k.1 != core::IDENT && !w.m.schema.contains_key(&k.0)) {
                            // A documented gap (mentat issue 796).
                            ctx.label("definition left in part, history ends");
                            return Ok(());
                        }
                    }
                }
                if sts[i].w.m.next_tx > sts[i].root.as_ref().map_or(first_tx(), |r| r.next_tx) {
                    owner = Some(i);
                }
            }
            1 => {
                ctx.note(format!("sync store {}", i));
                step(&mut sts[i], &mut hub, &mut remote, s, ctx)?;
                if owner == Some(i) && hub.as_ref().map_or(0, |h| h.next_tx) == sts[i].w.m.next_tx {
                    owner = None;
                }
            }
            _ => {
                let p = match &sts[i].path {
                    Some(p) => p.clone(),
                    None => continue,
                };
                ctx.note(format!("reopen store {}", i));
                let before = state(&mut sts[i].w)?;
                let mem = World::mem()?;
                let old = std::mem::replace(&mut sts[i].w, mem);
                let m = old.m;
                drop(old.store);
                let store = mentat::Store::open(p.to_str().unwrap()).map_err(es)?;
                sts[i].w = World { store, m };
                let after = state(&mut sts[i].w)?;
                if let Some(d) = db::diff_dump(&before, &after) {
                    fail!("after reopening: {}", d);
                }
                allocation(&mut sts[i].w)?;
                skip_dangling(&mut sts[i].w, ctx)?;
                if !apart && sts[i].w.m.next_tx > sts[i].root.as_ref().map_or(first_tx(), |r| r.next_tx) {
                    if owner.is_some() && owner != Some(i) {
                        // Two stores with work now.
                        return Ok(());
                    }
                    owner = Some(i);
                }
            }
        }
    }
    // All of them, until nothing is left to do.
    for round in 0..3 {
        for i in 0..n {
            for _ in 0..4 {
                if sts[i].stuck || (!apart && owner.is_some() && owner != Some(i) && round == 0) {
                    break;
                }
                ctx.note(format!("last sync of store {}", i));
                step(&mut sts[i], &mut hub, &mut remote, s, ctx)?;
                if sts[i].root.as_ref().map_or(false, |r| r.next_tx == sts[i].w.m.next_tx) {
                    break;
                }
            }
        }
    }
    if sts.iter().all(|x| !x.stuck) {
        let h = hub.as_ref().unwrap();
        let missed = sts.iter().any(|x| x.w.m.next_tx != h.next_tx);
        if !missed {
            ctx.label("all agree");
            for i in 1..n {
                let want = own_root(&sts[0].w.m, &sts[i].w.m);
                let got = &sts[i].w.m;
                if let Some(d) = db::diff_facts(&want.facts, &got.facts) {
                    fail!("stores 0 and {} have nothing left to sync and differ: {}", i, d);
                }
            }
        }
    }
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn http(ctx: &mut Ctx) -> CaseResult {
        let srv = Server::start()?;
        let mut a = World::mem()?;
        a.install(&[AttrDef { ident: ":t/a".into(), attr: Attr::new(Vt::Dbl) }], ctx)?;
        for x in &[0.1, 1e-7, 123456789.12345679, 2.2250738585072014e-308, 1.7976931348623157e308, -0.3, std::f64::INFINITY, std::f64::NEG_INFINITY] {
            a.transact_noted(&[Ent::add(Ep::Temp("t".into()), ":t/a", Vp::Val(V::Dbl(D(*x))))], ctx)?;
        }
        let t0 = std::time::Instant::now();
        let r = a.store.sync(&srv.url(), USER).map_err(es)?;
        ctx.note(format!("{} in {:?}", r, t0.elapsed()));
        let mut b = World::mem()?;
        let t0 = std::time::Instant::now();
        let r = b.store.sync(&srv.url(), USER).map_err(es)?;
        ctx.note(format!("{} in {:?}", r, t0.elapsed()));
        let want = own_root(&a.m, &b.m);
        same(&mut b, want)
    }
    fn st() -> Result<St, String> {
        Ok(St { w: World::mem()?, path: None, root: None, stuck: false })
    }
    fn go(sts: &mut [St], order: &[usize], hub: &mut Option<Model>, link: &mut Link, ctx: &mut Ctx) -> CaseResult {
        for i in order {
            ctx.note(format!("sync {}", i));
            step(&mut sts[*i], hub, link, &mut Src::replay(vec![]), ctx)?;
            check!(!sts[*i].stuck, "store {} can't be merged", i);
        }
        Ok(())
    }
    fn def(ident: &str, vt: Vt) -> AttrDef {
        AttrDef { ident: ident.into(), attr: Attr::new(vt) }
    }
    fn refused(ctx: &mut Ctx) -> CaseResult {
        for n in &[1, 2, 30] {
            for how in 0..4 {
                let mut link = Link::Http(Server::start()?);
                let mut a = World::mem()?;
                a.install(&[def(":t/a", Vt::Long)], ctx)?;
                link.fail(*n, how);
                let r = link.sync(&mut a, true)?;
                check!(link.failed()? && r.is_err(), "request {} fails in way {} and the sync reports {:?}", n, how, r);
                let r = link.sync(&mut a, true)?;
                check!(r == Ok(SyncReport::RemoteFastForward), "then {:?}", r);
                let mut b = World::mem()?;
                let r = link.sync(&mut b, true)?;
                check!(r == Ok(SyncReport::Merge(SyncFollowup::None)), "then {:?}", r);
                let want = own_root(&a.m, &b.m);
                same(&mut b, want)?;
            }
        }
        Ok(())
    }
    fn fulltext(ctx: &mut Ctx) -> CaseResult {
        let (mut sts, mut hub, mut link) = (vec![st()?, st()?], None, Link::Mem(Remote::new()));
        let mut d = def(":t/s", Vt::Str);
        d.attr.fulltext = true;
        d.attr.index = true;
        sts[0].w.install(&[d], ctx)?;
        sts[0].w.transact_noted(&[Ent::add(Ep::Temp("t".into()), ":t/s", Vp::Val(V::s("quick brown fox")))], ctx)?;
        go(&mut sts, &[0, 1, 0], &mut hub, &mut link, ctx)
    }
    fn ids(ctx: &mut Ctx) -> CaseResult {
        let (mut sts, mut hub, mut link) = (vec![st()?, st()?], None, Link::Mem(Remote::new()));
        sts[0].w.install(&[def(":t/a", Vt::Long), def(":t/b", Vt::Ref)], ctx)?;
        go(&mut sts, &[0, 1], &mut hub, &mut link, ctx)?;
        sts[0].w.transact_noted(&[], ctx)?;
        go(&mut sts, &[0, 1], &mut hub, &mut link, ctx)?;
        sts[1].w.transact_noted(&[Ent::add(Ep::Temp("t".into()), ":t/a", Vp::Val(V::Long(1)))], ctx)?;
        go(&mut sts, &[1, 0], &mut hub, &mut link, ctx)
    }
    fn renumbered(ctx: &mut Ctx) -> CaseResult {
        let (mut sts, mut hub, mut link) = (vec![st()?, st()?], None, Link::Mem(Remote::new()));
        let defs = [def(":t/a", Vt::Long), def(":t/b", Vt::Ref)];
        sts[0].w.install(&[def(":t/c", Vt::Long), def(":t/b", Vt::Ref), def(":t/a", Vt::Long)], ctx)?;
        sts[1].w.install(&defs, ctx)?;
        for i in 0..2 {
            sts[i].w.transact_noted(&[Ent::add(Ep::Temp("t".into()), ":t/a", Vp::Val(V::Long(i as i64))), Ent::add(Ep::Temp("t".into()), ":t/b", Vp::Temp("t".into()))], ctx)?;
            let e = sts[i].w.m.next_user - 1;
            sts[i].w.transact_noted(&[Ent::add(Ep::Temp("x".into()), ":t/b", Vp::Val(V::Ref(e)))], ctx)?;
        }
        go(&mut sts, &[0, 1, 1, 0], &mut hub, &mut link, ctx)
    }
    fn removed(ctx: &mut Ctx) -> CaseResult {
        let (mut sts, mut hub, mut link) = (vec![st()?, st()?], None, Link::Mem(Remote::new()));
        sts[0].w.install(&[def(":t/a", Vt::Long)], ctx)?;
        sts[0].w.transact_noted(&[Ent::add(Ep::Temp("t".into()), ":t/a", Vp::Val(V::Long(1)))], ctx)?;
        let e = sts[0].w.m.next_user - 1;
        go(&mut sts, &[0, 1], &mut hub, &mut link, ctx)?;
        let gone = Ent::retract(Ep::Id(e), ":t/a", Vp::Val(V::Long(1)));
        let a = sts[0].w.m.idents[":t/a"];
        sts[0].w.transact_noted(&[gone.clone()], ctx)?;
        let t = vec![
            Ent::retract(Ep::Id(a), ":db/ident", Vp::Val(V::kw(":t/a"))),
            Ent::retract(Ep::Id(a), ":db/valueType", Vp::Val(V::kw(":db.type/long"))),
            Ent::retract(Ep::Id(a), ":db/cardinality", Vp::Val(V::kw(":db.cardinality/one"))),
        ];
        check!(sts[0].w.transact_noted(&t, ctx)?.is_some(), "the attribute isn't removed");
        sts[1].w.transact_noted(&[gone], ctx)?;
        go(&mut sts, &[0, 1, 0], &mut hub, &mut link, ctx)
    }
    vec![
        ("a store is synced over HTTP", http),
        ("uploads the service refuses", refused),
        ("fulltext values are synced", fulltext),
        ("ids in use stay so after a download", ids),
        ("attributes and refs that a merge renumbers", renumbered),
        ("a retraction of an attribute that is gone", removed),
    ]
}

fn known() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn reused(ctx: &mut Ctx) -> CaseResult {
        let mut remote = Remote::new();
        let mut a = World::mem()?;
        a.install(&[AttrDef { ident: ":t/a".into(), attr: Attr::new(Vt::Long) }], ctx)?;
        a.transact_noted(&[Ent::add(Ep::Temp("t".into()), ":t/a", Vp::Val(V::Long(1)))], ctx)?;
        let e = a.m.next_user - 1;
        sync(&mut a, &mut remote, true)??;
        let mut b = World::mem()?;
        sync(&mut b, &mut remote, true)??;
        b.m = read_model(b.store.sqlite_mut())?;
        b.m.next_user = e + 1;
        b.m.next_tx = a.m.next_tx;
        // The remote one is about the attribute only.
        a.transact_noted(&[Ent::add(Ep::Ident(":t/a".into()), ":db/doc", Vp::Val(V::s("doc")))], ctx)?;
        sync(&mut a, &mut remote, true)??;
        b.transact_noted(&[Ent::add(Ep::Temp("t".into()), ":t/a", Vp::Val(V::Long(2)))], ctx)?;
        sync(&mut b, &mut remote, true)??;
        let facts = b.facts()?;
        let a = b.m.idents[":t/a"];
        check!(facts.contains_key(&(e, a, V::Long(1))), "the entity {} of both stores lost its value to a new one: {:?}", e, facts.keys().filter(|k| k.1 == a).collect::<Vec<_>>());
        Ok(())
    }
    vec![("merge-reuses-ids", reused)]
}

/// A sync service on the loopback network.
pub struct Server {
    pub port: u16,
    stop: std::sync::Arc<std::sync::atomic::AtomicBool>,
    pub plan: std::sync::Arc<std::sync::Mutex<Service>>,
    thread: Option<std::thread::JoinHandle<()>>,
}

#[derive(Default)]
pub struct Service {
    head: String,
    /// Parent and chunks, by id.
    txs: HashMap<String, (String, Vec<String>)>,
    chunks: HashMap<String, String>,
    /// Requests until one fails, and how.
    fail_in: Option<usize>,
    fail_how: usize,
    failed: Option<String>,
    bad: Option<String>,
}

const NIL: &str = "00000000-0000-0000-0000-000000000000";

fn uuids(s: &str) -> Vec<String> {
    s.split(|c: char| !(c.is_ascii_hexdigit() || c == '-')).filter(|x| x.len() == 36).map(|x| x.to_string()).collect()
}

impl Service {
    fn answer(&mut self, method: &str, path: &str, body: &str) -> (u16, String) {
        let ids = uuids(path);
        let list = |v: &[String]| v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",");
        let what = path.split('/').nth(2).unwrap_or("").split('?').next().unwrap_or("").to_string();
        match (method, what.as_str()) {
            ("GET", "head") => (200, format!("{{\"head\":\"{}\"}}", if self.head.is_empty() { NIL } else { &self.head })),
            ("PUT", "head") => {
                let h = uuids(body);
                if h.len() != 1 || !self.txs.contains_key(&h[0]) {
                    self.bad = Some(format!("head moved to {}", body));
                    return (400, String::new());
                }
                self.head = h[0].clone();
                (204, String::new())
            }
            ("GET", "transactions") if path.contains("?from=") => {
                let from = ids.last().cloned().unwrap_or_default();
                let mut out = vec![];
                let mut at = self.head.clone();
                while at != from && at != NIL && !at.is_empty() {
                    out.push(at.clone());
                    at = self.txs[&at].0.clone();
                }
                out.reverse();
                (200, format!("{{\"limit\":1000,\"from\":\"{}\",\"transactions\":[{}]}}", from, list(&out)))
            }
            ("GET", "transactions") => match self.txs.get(ids.last().unwrap()) {
                Some((p, c)) => (200, format!("{{\"parent\":\"{}\",\"chunks\":[{}],\"id\":\"{}\",\"seq\":1}}", p, list(c), ids.last().unwrap())),
                None => (404, String::new()),
            },
            ("PUT", "transactions") => {
                let b = uuids(body);
                if b[1..].iter().any(|c| !self.chunks.contains_key(c)) {
                    self.bad = Some("a transaction of chunks that were never uploaded".into());
                    return (400, String::new());
                }
                self.txs.insert(ids.last().unwrap().clone(), (b[0].clone(), b[1..].to_vec()));
                (201, String::new())
            }
            ("GET", "chunks") => match self.chunks.get(ids.last().unwrap()) {
                Some(c) => (200, c.clone()),
                None => (404, String::new()),
            },
            ("PUT", "chunks") => {
                self.chunks.insert(ids.last().unwrap().clone(), body.to_string());
                (201, String::new())
            }
            _ => {
                self.bad = Some(format!("{} {}", method, path));
                (404, String::new())
            }
        }
    }
}

impl Server {
    pub fn start() -> Result<Server, String> {
        use std::sync::atomic::*;
        use std::sync::{Arc, Mutex};
        // The connector for HTTPS reads all certificates for every request otherwise.
        std::env::set_var("SSL_CERT_FILE", "/dev/null");
        std::env::set_var("SSL_CERT_DIR", "/dev/null");
        let l = std::net::TcpListener::bind("127.0.0.1:0").map_err(es)?;
        let port = l.local_addr().map_err(es)?.port();
        let stop = Arc::new(AtomicBool::new(false));
        let plan = Arc::new(Mutex::new(Service::default()));
        let (s2, p2) = (stop.clone(), plan.clone());
        let thread = std::thread::spawn(move || {
            for c in l.incoming() {
                if s2.load(Ordering::SeqCst) {
                    break;
                }
                let c = match c {
                    Ok(c) => c,
                    Err(_) => continue,
                };
                let p3 = p2.clone();
                std::thread::spawn(move || {
                    let _ = serve(c, p3);
                });
            }
        });
        Ok(Server { port, stop, plan, thread: Some(thread) })
    }
    pub fn url(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, std::sync::atomic::Ordering::SeqCst);
        let _ = std::net::TcpStream::connect(("127.0.0.1", self.port));
        if let Some(t) = self.thread.take() {
            let _ = t.join();
        }
    }
}

fn serve(c: std::net::TcpStream, plan: std::sync::Arc<std::sync::Mutex<Service>>) -> std::io::Result<()> {
    use std::io::{BufRead, BufReader, Read, Write};
    c.set_nodelay(true)?;
    c.set_read_timeout(Some(std::time::Duration::from_secs(30)))?;
    let mut out = c.try_clone()?;
    let mut r = BufReader::new(c);
    loop {
        let mut line = String::new();
        if r.read_line(&mut line)? == 0 {
            return Ok(());
        }
        let mut parts = line.split_whitespace();
        let method = parts.next().unwrap_or("").to_string();
        let path = parts.next().unwrap_or("").to_string();
        let mut len = 0;
        loop {
            let mut h = String::new();
            if r.read_line(&mut h)? == 0 || h.trim().is_empty() {
                break;
            }
            let l = h.to_lowercase();
            if l.starts_with("content-length:") {
                len = l["content-length:".len()..].trim().parse().unwrap_or(0);
            }
        }
        let mut body = vec![0; len];
        r.read_exact(&mut body)?;
        let body = String::from_utf8_lossy(&body).to_string();
        let (mut code, mut text, mut cut) = (0, String::new(), false);
        {
            let mut p = plan.lock().unwrap();
            let fail = match p.fail_in {
                Some(0) => {
                    p.fail_in = None;
                    true
                }
                Some(n) => {
                    p.fail_in = Some(n - 1);
                    false
                }
                None => false,
            };
            if fail {
                p.failed = Some(format!("{} {}", method, path));
                match p.fail_how {
                    0 => code = 500,
                    1 => {
                        code = 503;
                        text = "{\"error\":\"busy\"}".into();
                    }
                    2 => {
                        code = 404;
                        text = "no such thing".into();
                    }
                    _ => cut = true,
                }
            } else {
                let (c, t) = p.answer(&method, &path, &body);
                code = c;
                text = t;
            }
        }
        if cut {
            return Ok(());
        }
        let head = format!("HTTP/1.1 {} X\r\ncontent-type: application/json\r\n", code);
        if code == 204 {
            out.write_all(format!("{}\r\n", head).as_bytes())?;
        } else {
            out.write_all(format!("{}content-length: {}\r\n\r\n{}", head, text.len(), text).as_bytes())?;
        }
        out.flush()?;
    }
}
