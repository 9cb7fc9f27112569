//! Oracles over what a store shows: its schema, its log, its constraints.

use crate::db;
use crate::model::*;
use crate::vals::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Log = BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>;
pub type Facts = BTreeMap<(i64, i64, V), i64>;

pub fn show_attr(a: &Attr) -> String {
    format!("{:?}", a)
}

/// mentat's in-memory schema against the one its facts define.
pub fn check_schema(sc: &mentat::Schema, m: &Model) -> Result<(), String> {
    let got: BTreeMap<i64, String> = sc
        .attribute_map
        .iter()
        .map(|(e, a)| {
            let vt = *ALL_VT.iter().find(|v| v.mentat() == a.value_type).unwrap();
            let u = match a.unique {
                Some(core_traits::attribute::Unique::Value) => Some(Uniq::Value),
                Some(core_traits::attribute::Unique::Identity) => Some(Uniq::Identity),
                None => None,
            };
            let at = Attr { vt, many: a.multival, unique: u, index: a.index, fulltext: a.fulltext, component: a.component, nohist: a.no_history };
            (*e, show_attr(&at))
        })
        .collect();
    let want: BTreeMap<i64, String> = m.schema.iter().map(|(e, a)| (*e, show_attr(a))).collect();
    if got != want {
        for (e, w) in &want {
            match got.get(e) {
                None => return Err(format!("attribute {} is in the stored facts but not in the schema", e)),
                Some(g) if g != w => return Err(format!("attribute {} is {} in the schema, {} by the stored facts", e, g, w)),
                _ => {}
            }
        }
        return Err(format!("schema has attributes the facts do not define: {:?}", got.keys().filter(|e| !want.contains_key(e)).collect::<Vec<_>>()));
    }
    let idents: BTreeMap<String, i64> = sc.ident_map.iter().map(|(k, e)| (k.to_string(), *e)).collect();
    if idents != m.idents {
        let w: BTreeSet<_> = m.idents.iter().collect();
        let g: BTreeSet<_> = idents.iter().collect();
        return Err(format!("idents: {}", db::diff_sets(&w, &g).unwrap_or_default()));
    }
    let rev: BTreeMap<String, i64> = sc.entid_map.iter().map(|(e, k)| (k.to_string(), *e)).collect();
    if rev != m.idents || sc.entid_map.len() != m.idents.len() {
        return Err(format!("entid->ident map is not the inverse of ident->entid: {:?} vs {:?}", rev, m.idents));
    }
    let comps: BTreeSet<i64> = sc.component_attributes.iter().cloned().collect();
    let want: BTreeSet<i64> = m.schema.iter().filter(|(_, a)| a.component).map(|(e, _)| *e).collect();
    if comps != want || comps.len() != sc.component_attributes.len() {
        return Err(format!("component attributes {:?}, the facts say {:?}", sc.component_attributes, want));
    }
    Ok(())
}

/// The log against the facts and against what it was before, without any model of transactions.
pub struct LogOracle {
    pub prev: Log,
}

impl LogOracle {
    pub fn check(&mut self, log: &Log, facts: &Facts, new_txs: Option<&[i64]>) -> Result<(), String> {
        for (tx, e) in &self.prev {
            match log.get(tx) {
                None => return Err(format!("log entry {} has disappeared", tx)),
                Some(x) if x != e => return Err(format!("log entry {} has changed: {}", tx, db::diff_sets(e, x).unwrap_or_default())),
                _ => {}
            }
        }
        let last = self.prev.keys().next_back().cloned().unwrap_or(0);
        let fresh: Vec<i64> = log.keys().filter(|t| !self.prev.contains_key(t)).cloned().collect();
        for t in &fresh {
            if *t <= last {
                return Err(format!("new log entry {} is not above the last one {}", t, last));
            }
        }
        if let Some(want) = new_txs {
            if want != &fresh[..] {
                return Err(format!("log has new transactions {:?}, committed were {:?}", fresh, want));
            }
        }
        // Replay.
        let mut state: Facts = BTreeMap::new();
        for (tx, entry) in log {
            let mut instants = 0;
            for (e, a, v, added) in entry {
                if *e == *tx && *a == core::TX_INSTANT && *added {
                    instants += 1;
                }
                if !*added {
                    if state.remove(&(*e, *a, v.clone())).is_none() {
                        return Err(format!("tx {} records the retraction of [{} {} {}], which was not there", tx, e, a, v));
                    }
                }
            }
            for (e, a, v, added) in entry {
                if *added {
                    if state.insert((*e, *a, v.clone()), *tx).is_some() {
                        return Err(format!("tx {} records the addition of [{} {} {}], which was there already", tx, e, a, v));
                    }
                }
                if !*added && entry.contains(&(*e, *a, v.clone(), true)) {
                    return Err(format!("tx {} both adds and retracts [{} {} {}]", tx, e, a, v));
                }
            }
            if instants != 1 {
                return Err(format!("tx {} has {} :db/txInstant assertions", tx, instants));
            }
        }
        if let Some(d) = db::diff_facts(&state, facts) {
            return Err(format!("the log does not replay to the current facts: {}", d));
        }
        self.prev = log.clone();
        Ok(())
    }
}

/// The constraints that the definitions in the facts themselves impose on the facts.
pub fn check_constraints(facts: &Facts) -> Result<(), String> {
    let m = Model::from_store(facts.clone(), BTreeMap::new());
    let mut owner: BTreeMap<(i64, &V), i64> = BTreeMap::new();
    let mut one: BTreeSet<(i64, i64)> = BTreeSet::new();
    let mut named: BTreeMap<String, i64> = BTreeMap::new();
    for ((e, a, v), _) in facts {
        let at = match m.schema.get(a) {
            Some(at) => at,
            None => continue, // an attribute that was removed
        };
        if v.vt() != at.vt {
            return Err(format!("[{} {} {}] is not of type {:?}", e, a, v, at.vt));
        }
        if !at.many && !one.insert((*e, *a)) {
            return Err(format!("entity {} has two values of cardinality-one attribute {}: {:?}", e, a, m.values(*e, *a)));
        }
        if at.unique.is_some() {
            if let Some(o) = owner.insert((*a, v), *e) {
                return Err(format!("entities {} and {} share value {} of unique attribute {}", o, e, v, a));
            }
        }
        if *a == core::IDENT {
            if let Some(o) = named.insert(v.to_string(), *e) {
                return Err(format!("ident {} names {} and {}", v, o, e));
            }
        }
    }
    Ok(())
}

/// Lookups and simple queries, which caches may answer, against the facts.
pub fn check_lookups<Q: mentat::Queryable>(q: &Q, m: &Model, s: &mut crate::engine::Src, limit: usize) -> Result<u64, String> {
    let attrs: Vec<(String, i64, Attr)> = crate::gen::defs_of(m).into_iter().map(|d| { let i = m.idents[&d.ident]; (d.ident, i, d.attr) }).collect();
    if attrs.is_empty() {
        return Ok(0);
    }
    let mut n = 0;
    let mut ents: Vec<i64> = m.facts.keys().filter(|(e, _, _)| *e >= USER0).map(|(e, _, _)| *e).collect();
    ents.dedup();
    ents.push(m.next_user + 3);
    for _ in 0..limit {
        let (ident, aid, at) = s.pick(&attrs).clone();
        let kw = keyword(&ident);
        if s.bool() {
            let owners: Vec<i64> = m.facts.keys().filter(|(_, a, _)| *a == aid).map(|(e, _, _)| *e).collect();
            let e = if !owners.is_empty() && s.chance(3, 4) { *s.pick(&owners) } else { *s.pick(&ents) };
            let want: BTreeSet<V> = m.values(e, aid).into_iter().collect();
            let vs = q.lookup_values_for_attribute(e, &kw).map_err(|x| format!("lookup_values({}, {}) failed: {}", e, ident, x))?;
            let got: BTreeSet<V> = vs.iter().map(V::of).collect();
            if got != want || got.len() != vs.len() {
                return Err(format!("lookup_values({}, {}) is {:?}, the facts have {:?}", e, ident, vs, want));
            }
            let one = q.lookup_value_for_attribute(e, &kw).map_err(|x| format!("lookup_value({}, {}) failed: {}", e, ident, x))?;
            if one.is_some() == want.is_empty() || one.as_ref().map_or(false, |v| !want.contains(&V::of(v))) {
                return Err(format!("lookup_value({}, {}) is {:?}, the facts have {:?}", e, ident, one, want));
            }
            let text = format!("[:find [?v ...] :where [{} {} ?v]]", e, ident);
            let got = coll(q, &text)?;
            if got.iter().cloned().collect::<BTreeSet<V>>() != want || got.len() != want.len() {
                return Err(format!("{} gives {:?}, the facts have {:?}", text, got, want));
            }
        } else {
            let have: Vec<V> = m.facts.keys().filter(|(_, a, _)| *a == aid).map(|(_, _, v)| v.clone()).collect();
            let v = if !have.is_empty() && s.chance(2, 3) { s.pick(&have).clone() } else { crate::gen::small_value(s, at.vt, &ents) };
            let want: BTreeSet<V> = m.facts.keys().filter(|(_, a, w)| *a == aid && *w == v).map(|(e, _, _)| V::Ref(*e)).collect();
            let text = format!("[:find [?e ...] :where [?e {} {}]]", ident, v.edn());
            let got = coll(q, &text)?;
            if got.iter().cloned().collect::<BTreeSet<V>>() != want || got.len() != want.len() {
                return Err(format!("{} gives {:?}, the facts have {:?}", text, got, want));
            }
        }
        n += 1;
    }
    Ok(n)
}

pub fn coll<Q: mentat::Queryable>(q: &Q, text: &str) -> Result<Vec<V>, String> {
    let out = q.q_once(text, None).map_err(|e| format!("query {} failed: {}", text, e))?;
    match out.results {
        mentat::QueryResults::Coll(vs) => vs
            .into_iter()
            .map(|b| match b {
                mentat::Binding::Scalar(tv) => Ok(V::of(&tv)),
                b => Err(format!("query {} returned {:?}", text, b)),
            })
            .collect(),
        r => Err(format!("query {} returned {:?}", text, r)),
    }
}
