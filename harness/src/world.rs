//! A real store beside the reference model.

use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::vals::*;
use mentat::Store;
use std::collections::BTreeMap;
use std::path::Path;

pub struct World {
    pub store: Store,
    pub m: Model,
}

pub fn es<E: std::fmt::Display>(e: E) -> String {
    format!("{}", e)
}

pub fn read_model(c: &rusqlite::Connection) -> Result<Model, String> {
    let facts = db::read_facts(c)?;
    let mut m = Model::from_store(facts, BTreeMap::new());
    m.log = db::read_log(c, &m.fts())?;
    Ok(m)
}

impl World {
    pub fn open(path: &str) -> Result<World, String> {
        let mut store = Store::open(path).map_err(|e| format!("Store::open failed: {}", e))?;
        let m = read_model(store.sqlite_mut())?;
        Ok(World { store, m })
    }
    pub fn mem() -> Result<World, String> {
        World::open("")
    }
    pub fn open_file(p: &Path) -> Result<World, String> {
        World::open(p.to_str().unwrap())
    }

    pub fn facts(&mut self) -> Result<BTreeMap<(i64, i64, V), i64>, String> {
        db::read_facts(self.store.sqlite_mut())
    }

    pub fn install(&mut self, defs: &[AttrDef], ctx: &mut Ctx) -> Result<(), String> {
        ctx.note(format!("schema: {}", summarize(defs)));
        let ents = schema_ents(defs);
        match self.transact(&ents)? {
            Some(_) => Ok(()),
            None => Err("the model refuses the generated schema (harness error)".into()),
        }
    }

    /// Transact through the store and the model; Ok(None) if both refuse.
    pub fn transact(&mut self, ents: &[Ent]) -> Result<Option<Effect>, String> {
        self.transact_noted(ents, &mut Ctx::default())
    }

    pub fn transact_noted(&mut self, ents: &[Ent], ctx: &mut Ctx) -> Result<Option<Effect>, String> {
        let text = tx_edn(ents);
        ctx.note(&text);
        let plan = self.m.plan(ents);
        let real = self.store.transact(text.as_str());
        match (plan, real) {
            (Ok(ef), Ok(rep)) => {
                let facts = self.facts()?;
                let ef = reconcile(&mut self.m, ef, &rep.tempids, rep.tx_id, micros(&rep.tx_instant), &facts)?;
                ctx.note(format!("  => tx {} tempids {:?}", rep.tx_id, rep.tempids));
                Ok(Some(ef))
            }
            (Err(why), Err(e)) => {
                ctx.note(format!("  => rejected: {} (model: {})", clip_line(&es(e)), why));
                let facts = self.facts()?;
                if let Some(d) = db::diff_facts(&self.m.facts, &facts) {
                    return Err(format!("a rejected transaction changed the store: {}", d));
                }
                Ok(None)
            }
            (Ok(_), Err(e)) => Err(format!("transaction rejected with '{}' but the rules accept it:\n{}", e, text)),
            (Err(why), Ok(rep)) => Err(format!("transaction accepted (tx {}) although it breaks a rule: {}\n{}", rep.tx_id, why, text)),
        }
    }
}

pub fn clip_line(s: &str) -> String {
    s.chars().take(160).collect::<String>().replace('\n', " ")
}

/// Transact inside an open transaction and in a copy of the model.
pub fn transact_ip(ip: &mut mentat::InProgress, m: &mut Model, ents: &[Ent], ctx: &mut Ctx) -> Result<Option<Effect>, String> {
    let text = tx_edn(ents);
    ctx.note(format!("  [in progress] {}", text));
    let plan = m.plan(ents);
    let real = ip.transact(text.as_str());
    let facts = db::read_facts(&ip.transaction)?;
    match (plan, real) {
        (Ok(ef), Ok(rep)) => {
            let ef = reconcile(m, ef, &rep.tempids, rep.tx_id, micros(&rep.tx_instant), &facts)?;
            ctx.note(format!("  => tx {} tempids {:?}", rep.tx_id, rep.tempids));
            Ok(Some(ef))
        }
        (Err(why), Err(e)) => {
            ctx.note(format!("  => rejected: {} (model: {})", clip_line(&es(e)), why));
            if let Some(d) = db::diff_facts(&m.facts, &facts) {
                return Err(format!("a rejected transaction inside an open one changed what it sees: {}", d));
            }
            Ok(None)
        }
        (Ok(_), Err(e)) => Err(format!("transaction rejected with '{}' but the rules accept it:\n{}", e, text)),
        (Err(why), Ok(rep)) => Err(format!("transaction accepted (tx {}) although it breaks a rule: {}\n{}", rep.tx_id, why, text)),
    }
}

/// The next user id a store opened on these tables hands out: one past the largest ever in the log.
pub fn next_user_of(c: &rusqlite::Connection) -> Result<i64, String> {
    let n: Option<i64> = c
        .query_row("SELECT MAX(e) FROM timelined_transactions WHERE e >= ? AND e < ?", rusqlite::params![USER0, TX0], |r| r.get(0))
        .map_err(es)?;
    Ok(n.map_or(USER0, |x| x + 1))
}
