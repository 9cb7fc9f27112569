//! P19: observers see every committed change to their attributes, and only those.

use crate::check;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::world::*;
use mentat::TxObserver;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub static PROP: Prop = Prop {
    id: "P19",
    rule: "Histories over a random schema: observers registered under a few keys for random sets of attributes (none, some, all, :db/txInstant, schema attributes, unknown ids), registered again under the same key, the same observer under two keys, and unregistered; transactions alone (good and failing, data and schema changes, with no effect at all) and several in one open transaction with failing ones, savepoints, rollbacks to them and releases, then committed, rolled back or dropped. At the end a last transaction seen by an observer of :db/txInstant marks that everything before was delivered; each observer's calls are then compared with the model's log: one call per commit with something for it, under its key, holding in order exactly the committed transactions that concern it. Non-trivial: at least two calls to observers whose attributes are some but not all of those changed.",
    quick_cases: 4000,
    thorough_cases: 50000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &[
        "a transaction that only restates (or retracts what isn't there of) an attribute may be reported or not",
        "a report lists the transaction's attributes, registered or not",
        "callbacks arrive on another thread, in order, at some time after the commit; none fails or registers observers itself",
    ],
};

type Call = (String, Vec<(i64, BTreeSet<i64>)>);

fn mention(ents: &[Ent], m: &Model, out: &mut BTreeSet<i64>) {
    fn name(a: &ARef, m: &Model, out: &mut BTreeSet<i64>) {
        match &a.name {
            AName::Id(i) => {
                out.insert(*i);
            }
            AName::Ident(s) => {
                out.extend(m.idents.get(s).cloned());
            }
        }
    }
    fn val(v: &Vp, m: &Model, out: &mut BTreeSet<i64>) {
        match v {
            Vp::Vec(vs) => vs.iter().for_each(|v| val(v, m, out)),
            Vp::Map(_, kvs) => pairs(kvs, m, out),
            _ => {}
        }
    }
    fn pairs(kvs: &[(ARef, Vp)], m: &Model, out: &mut BTreeSet<i64>) {
        for (a, v) in kvs {
            name(a, m, out);
            val(v, m, out);
        }
    }
    for e in ents {
        match e {
            Ent::List(_, _, a, v) => {
                name(a, m, out);
                val(v, m, out);
            }
            Ent::Map(_, kvs) => pairs(kvs, m, out),
        }
    }
}

/// What a transaction must and may be reported with.
#[derive(Clone)]
struct Tx {
    id: i64,
    must: BTreeSet<i64>,
    may: BTreeSet<i64>,
}

fn tx_of(ef: &Effect, ents: &[Ent], before: &Model, after: &Model) -> Tx {
    let must: BTreeSet<i64> = after.log.get(&ef.tx).into_iter().flatten().map(|(_, a, _, _)| *a).collect();
    let mut may = must.clone();
    mention(ents, before, &mut may);
    may.insert(core::TX_INSTANT);
    Tx { id: ef.tx, must, may }
}

struct Obs {
    attrs: BTreeSet<i64>,
    seen: Arc<Mutex<Vec<Call>>>,
    ob: Arc<TxObserver>,
}

fn observer(attrs: BTreeSet<i64>) -> Obs {
    let seen: Arc<Mutex<Vec<Call>>> = Default::default();
    let out = seen.clone();
    let ob = Arc::new(TxObserver::new(attrs.clone(), move |key, batch| {
        out.lock().unwrap().push((key.to_string(), batch.into_iter().map(|(t, a)| (*t, a.clone())).collect()));
    }));
    Obs { attrs, seen, ob }
}

struct Hist {
    w: World,
    obs: Vec<Obs>,
    keys: BTreeMap<String, usize>,
    /// By observer, in order, the commits made while it was registered: under which keys, and what was committed.
    want: BTreeMap<usize, Vec<(BTreeSet<String>, Vec<Tx>)>>,
}

impl Hist {
    fn committed(&mut self, txs: Vec<Tx>) {
        if txs.is_empty() {
            return;
        }
        let mut by: BTreeMap<usize, BTreeSet<String>> = BTreeMap::new();
        for (k, o) in &self.keys {
            by.entry(*o).or_default().insert(k.clone());
        }
        for (o, ks) in by {
            self.want.entry(o).or_default().push((ks, txs.clone()));
        }
    }

    fn register(&mut self, s: &mut Src, ctx: &mut Ctx) {
        let key = s.pick(&["a", "b", "c", "a long key"]).to_string();
        let o = if !self.obs.is_empty() && s.chance(1, 4) {
            s.idx(self.obs.len())
        } else {
            let all: Vec<i64> = self.w.m.schema.keys().cloned().collect();
            let user: Vec<i64> = all.iter().cloned().filter(|a| *a >= USER0).collect();
            let mut attrs = BTreeSet::new();
            match s.below(10) {
                0 => {}
                1 => attrs.extend(all),
                2 => {
                    attrs.insert(core::TX_INSTANT);
                }
                3 => {
                    attrs.insert(core::IDENT);
                    attrs.insert(core::CARDINALITY);
                }
                4 => {
                    attrs.insert(123_456_789);
                }
                _ => {
                    for _ in 0..s.size(1, 3) {
                        if !user.is_empty() {
                            attrs.insert(*s.pick(&user));
                        }
                    }
                }
            }
            self.obs.push(observer(attrs));
            self.obs.len() - 1
        };
        ctx.note(format!("register {:?}: observer {} of {:?}", key, o, self.obs[o].attrs));
        self.w.store.register_observer(key.clone(), self.obs[o].ob.clone());
        if self.keys.insert(key, o).is_some() {
            ctx.label("registered again");
        }
    }

    fn unregister(&mut self, s: &mut Src, ctx: &mut Ctx) -> CaseResult {
        let key = s.pick(&["a", "b", "c", "a long key"]).to_string();
        ctx.note(format!("unregister {:?}", key));
        self.w.store.unregister_observer(&key);
        if self.keys.remove(&key).is_some() {
            ctx.label("unregistered");
        }
        Ok(())
    }

    fn one(&mut self, s: &mut Src, ctx: &mut Ctx) -> CaseResult {
        let ok = !s.chance(1, 5);
        let t = if s.chance(1, 10) { vec![] } else { evolving_tx(s, &self.w.m, 12, ok) };
        let before = self.w.m.clone();
        match self.w.transact_noted(&t, ctx)? {
            Some(ef) => {
                let tx = tx_of(&ef, &t, &before, &self.w.m);
                self.committed(vec![tx]);
            }
            None => ctx.label("failed transaction"),
        }
        Ok(())
    }

    fn session(&mut self, s: &mut Src, ctx: &mut Ctx) -> CaseResult {
        let mut m = self.w.m.clone();
        let mut txs: Vec<Tx> = vec![];
        let mut saved: Vec<(String, Model, usize)> = vec![];
        ctx.note("begin");
        let keep;
        {
            let mut ip = self.w.store.begin_transaction().map_err(es)?;
            for i in 0..s.size(1, 6) {
                match s.weighted(&[6, 2, 2, 1]) {
                    0 => {
                        let ok = !s.chance(1, 4);
                        let t = evolving_tx(s, &m, 12, ok);
                        let before = m.clone();
                        if let Some(ef) = transact_ip(&mut ip, &mut m, &t, ctx)? {
                            txs.push(tx_of(&ef, &t, &before, &m));
                        }
                    }
                    1 => {
                        let name = format!("s{}", i);
                        ctx.note(format!("  savepoint {}", name));
                        ip.savepoint(&name).map_err(es)?;
                        saved.push((name, m.clone(), txs.len()));
                    }
                    2 => {
                        if let Some((name, m0, n)) = saved.pop() {
                            ctx.note(format!("  rollback to {}", name));
                            ip.rollback_savepoint(&name).map_err(es)?;
                            if txs.len() > n {
                                ctx.label("transactions rolled back to a savepoint");
                            }
                            m = m0;
                            txs.truncate(n);
                        }
                    }
                    _ => {
                        if let Some((name, _, _)) = saved.pop() {
                            ctx.note(format!("  release {}", name));
                            ip.release_savepoint(&name).map_err(es)?;
                        }
                    }
                }
            }
            keep = s.chance(2, 3);
            if keep {
                ctx.note("commit");
                ip.commit().map_err(es)?;
            } else if s.bool() {
                ctx.note("roll back");
                ip.rollback().map_err(es)?;
            } else {
                ctx.note("drop");
            }
        }
        if keep {
            self.w.m = m;
            if txs.len() > 1 {
                ctx.label("commit of several transactions");
            }
            self.committed(txs);
        } else {
            if !txs.is_empty() {
                ctx.label("transactions not committed");
            }
        }
        Ok(())
    }
}

fn judge(calls: &[Call], want: &[(BTreeSet<String>, Vec<Tx>)], attrs: &BTreeSet<i64>, key: &str, last: i64, ctx: &mut Ctx) -> Result<usize, String> {
    // The calls under one key; what marks the end doesn't count.
    let calls: Vec<&Vec<(i64, BTreeSet<i64>)>> = calls.iter().filter(|(k, _)| k == key).map(|(_, b)| b).filter(|b| b.iter().all(|(t, _)| *t != last)).collect();
    let mut it = calls.iter().peekable();
    let mut n = 0;
    for (_, txs) in want.iter().filter(|(ks, _)| ks.contains(key)) {
        let must: Vec<i64> = txs.iter().filter(|t| !t.must.is_disjoint(attrs)).map(|t| t.id).collect();
        let may: BTreeMap<i64, &Tx> = txs.iter().filter(|t| !t.may.is_disjoint(attrs)).map(|t| (t.id, t)).collect();
        let batch = match it.peek() {
            Some(b) if b.iter().any(|(t, _)| txs.iter().any(|x| x.id == *t)) => it.next().unwrap(),
            _ => {
                check!(must.is_empty(), "the commit of {:?} was not reported to an observer of {:?}; next it heard {:?}", must, attrs, it.peek());
                continue;
            }
        };
        n += 1;
        let ids: Vec<i64> = batch.iter().map(|(t, _)| *t).collect();
        check!(ids.windows(2).all(|w| w[0] < w[1]), "transactions were reported out of order or repeatedly: {:?}", ids);
        for t in &must {
            check!(ids.contains(t), "transaction {} was not reported to an observer of {:?} with its commit: {:?}", t, attrs, batch);
        }
        for (t, got) in batch.iter() {
            let x = match may.get(t) {
                Some(x) => x,
                None => return Err(format!("transaction {} was reported to an observer of {:?}, which it doesn't concern", t, attrs)),
            };
            let g: BTreeSet<i64> = got.intersection(attrs).cloned().collect();
            let lo: BTreeSet<i64> = x.must.intersection(attrs).cloned().collect();
            let hi: BTreeSet<i64> = x.may.intersection(attrs).cloned().collect();
            check!(lo.is_subset(&g) && g.is_subset(&hi), "transaction {} changed {:?} of the attributes {:?}, but was reported with {:?}", t, lo, attrs, g);
            check!(got.is_subset(&x.may), "transaction {} was reported with attributes it doesn't mention: {:?} of {:?}", t, got, x.may);
            if lo.len() < x.must.len() && !lo.is_empty() {
                ctx.label("some of the attributes observed");
            }
        }
        if txs.len() > batch.len() {
            ctx.label("some of the transactions of a commit observed");
        }
    }
    check!(it.peek().is_none(), "an observer of {:?} heard {:?} under {:?}, which was reported before, not committed while it was registered, or not committed at all", attrs, it.peek(), key);
    Ok(n)
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = World::mem()?;
    let defs = gen_schema(s, 2, 5);
    w.install(&defs, ctx)?;
    let mut h = Hist { w, obs: vec![], keys: BTreeMap::new(), want: BTreeMap::new() };
    if !s.chance(1, 5) {
        h.register(s, ctx);
    }
    for _ in 0..s.size(3, if tier.thorough { 14 } else { 9 }) {
        match s.weighted(&[3, 1, 4, 4]) {
            0 => h.register(s, ctx),
            1 => h.unregister(s, ctx)?,
            2 => h.one(s, ctx)?,
            _ => h.session(s, ctx)?,
        }
    }
    let last = finish(&mut h.w)?;
    let mut calls = 0;
    for (i, o) in h.obs.iter().enumerate() {
        let seen = o.seen.lock().unwrap();
        let none = vec![];
        let want = h.want.get(&i).unwrap_or(&none);
        let mut keys: BTreeSet<String> = want.iter().flat_map(|(k, _)| k.iter().cloned()).collect();
        keys.extend(seen.iter().map(|(k, _)| k.clone()));
        for k in keys {
            calls += judge(&seen, want, &o.attrs, &k, last, ctx).map_err(|e| format!("observer {} under {:?}: {}", i, k, e))?;
        }
        for (_, batch) in seen.iter() {
            check!(!batch.is_empty(), "observer {} was called with nothing", i);
        }
    }
    if calls > 0 {
        ctx.label("observers called");
    }
    if calls >= 2 && ctx.labels.contains_key("some of the attributes observed") {
        ctx.nontrivial = true;
    }
    Ok(())
}

/// Wait until everything committed so far was delivered.
fn finish(w: &mut World) -> Result<i64, String> {
    let (tx, rx): (Sender<Vec<i64>>, Receiver<Vec<i64>>) = channel();
    let tx = Mutex::new(tx);
    let end = Arc::new(TxObserver::new(vec![core::TX_INSTANT].into_iter().collect(), move |_, batch| {
        let _ = tx.lock().unwrap().send(batch.keys().map(|t| **t).collect());
    }));
    w.store.register_observer("the end".to_string(), end);
    let last = w.store.transact("[]").map_err(es)?.tx_id;
    match rx.recv_timeout(Duration::from_secs(30)) {
        Ok(ts) if ts == vec![last] => Ok(last),
        Ok(ts) => Err(format!("an observer registered before transaction {} alone heard of {:?}", last, ts)),
        Err(e) => Err(format!("an observer of :db/txInstant heard nothing of transaction {}: {}", last, e)),
    }
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn with(f: &dyn Fn(&mut World, i64, i64) -> Result<Vec<i64>, String>) -> CaseResult {
        use crate::vals::Vt;
        let mut w = World::mem()?;
        w.install(&[crate::p01::def(":t/l", Vt::Long, false, None), crate::p01::def(":t/s", Vt::Str, false, None)], &mut Ctx::default())?;
        let (l, s) = (w.m.idents[":t/l"], w.m.idents[":t/s"]);
        let o = observer(vec![l].into_iter().collect());
        w.store.register_observer("o".to_string(), o.ob.clone());
        let want = f(&mut w, l, s)?;
        let last = finish(&mut w)?;
        let seen = o.seen.lock().unwrap();
        let got: Vec<i64> = seen.iter().flat_map(|(_, b)| b.iter().map(|(t, _)| *t)).filter(|t| *t != last).collect();
        check!(got == want, "an observer heard of {:?} instead of {:?}", got, want);
        Ok(())
    }
    vec![
        ("attributes of a failed transaction", |_| {
            with(&|w, _, _| {
                let mut ip = w.store.begin_transaction().map_err(es)?;
                let _ = ip.transact("[[:db/add \"x\" :t/l 1] [:db/add \"x\" :t/l 2]]");
                ip.transact("[[:db/add \"x\" :t/s \"a\"]]").map_err(es)?;
                ip.commit().map_err(es)?;
                Ok(vec![])
            })
        }),
        ("transactions rolled back to a savepoint", |_| {
            with(&|w, _, _| {
                let mut ip = w.store.begin_transaction().map_err(es)?;
                let a = ip.transact("[[:db/add \"x\" :t/l 1]]").map_err(es)?.tx_id;
                ip.savepoint("s").map_err(es)?;
                ip.transact("[[:db/add \"x\" :t/l 2]]").map_err(es)?;
                ip.rollback_savepoint("s").map_err(es)?;
                ip.commit().map_err(es)?;
                Ok(vec![a])
            })
        }),
        ("unregistered right after a commit", |_| {
            with(&|w, _, _| {
                let a = w.store.transact("[[:db/add \"x\" :t/l 1]]").map_err(es)?.tx_id;
                w.store.unregister_observer(&"o".to_string());
                w.store.transact("[[:db/add \"x\" :t/l 2]]").map_err(es)?;
                Ok(vec![a])
            })
        }),
    ]
}
