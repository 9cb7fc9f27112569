//! Observing a store: raw reads of the persisted tables, decoded without mentat's code.

use crate::vals::*;
use std::collections::{BTreeMap, BTreeSet};

pub type Fact = (i64, i64, V);

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Snap {
    /// (e, a, v) -> tx
    pub facts: BTreeMap<Fact, i64>,
    /// tx -> {(e, a, v, added)}
    pub log: BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>,
}

fn se<E: std::fmt::Display>(e: E) -> String {
    format!("SQL error: {}", e)
}

pub fn read_facts(c: &rusqlite::Connection) -> Result<BTreeMap<Fact, i64>, String> {
    let mut out = BTreeMap::new();
    let mut st = c
        .prepare("SELECT d.e, d.a, CASE WHEN d.index_fulltext THEN (SELECT f.text FROM fulltext_values f WHERE f.rowid = d.v) ELSE d.v END, d.value_type_tag, d.tx FROM datoms d")
        .map_err(se)?;
    let mut rows = st.query(rusqlite::params![]).map_err(se)?;
    while let Some(r) = rows.next().map_err(se)? {
        let e: i64 = r.get(0).map_err(se)?;
        let a: i64 = r.get(1).map_err(se)?;
        let v: rusqlite::types::Value = r.get(2).map_err(se)?;
        let t: i32 = r.get(3).map_err(se)?;
        let tx: i64 = r.get(4).map_err(se)?;
        let v = from_sql(v, t).map_err(|m| format!("{} (fact of entity {} attribute {})", m, e, a))?;
        if out.insert((e, a, v.clone()), tx).is_some() {
            return Err(format!("fact stored twice: [{} {} {}]", e, a, v));
        }
    }
    Ok(out)
}

pub fn read_log(c: &rusqlite::Connection, fts: &BTreeSet<i64>) -> Result<BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>, String> {
    read_log_timeline(c, fts, 0)
}

pub fn read_log_timeline(c: &rusqlite::Connection, fts: &BTreeSet<i64>, timeline: i64) -> Result<BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>, String> {
    let mut out: BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>> = BTreeMap::new();
    let mut st = c
        .prepare("SELECT e, a, v, value_type_tag, tx, added FROM timelined_transactions WHERE timeline = ?")
        .map_err(se)?;
    // Attributes that are or ever were fulltext log rows of the text table.
    let mut fts = fts.clone();
    {
        let mut st = c.prepare("SELECT e FROM timelined_transactions WHERE a = 12 AND v = 1 AND value_type_tag = 1 AND added = 1").map_err(se)?;
        let mut rows = st.query(rusqlite::params![]).map_err(se)?;
        while let Some(r) = rows.next().map_err(se)? {
            fts.insert(r.get(0).map_err(se)?);
        }
    }
    let mut texts: BTreeMap<i64, String> = BTreeMap::new();
    if !fts.is_empty() {
        let mut ft = c.prepare("SELECT rowid, text FROM fulltext_values").map_err(se)?;
        let mut rows = ft.query(rusqlite::params![]).map_err(se)?;
        while let Some(r) = rows.next().map_err(se)? {
            texts.insert(r.get(0).map_err(se)?, r.get(1).map_err(se)?);
        }
    }
    let mut rows = st.query(rusqlite::params![timeline]).map_err(se)?;
    while let Some(r) = rows.next().map_err(se)? {
        let e: i64 = r.get(0).map_err(se)?;
        let a: i64 = r.get(1).map_err(se)?;
        let mut v: rusqlite::types::Value = r.get(2).map_err(se)?;
        let t: i32 = r.get(3).map_err(se)?;
        let tx: i64 = r.get(4).map_err(se)?;
        let added: bool = r.get(5).map_err(se)?;
        if t == 10 && fts.contains(&a) {
            // A fulltext value is logged as the row of the text.
            if let rusqlite::types::Value::Integer(id) = v {
                match texts.get(&id) {
                    Some(s) => v = rusqlite::types::Value::Text(s.clone()),
                    None => return Err(format!("log entry of tx {} refers to missing fulltext row {}", tx, id)),
                }
            }
        }
        let v = from_sql(v, t).map_err(|m| format!("{} (log of tx {})", m, tx))?;
        if !out.entry(tx).or_insert_with(BTreeSet::new).insert((e, a, v.clone(), added)) {
            return Err(format!("log entry stored twice: tx {} [{} {} {} {}]", tx, e, a, v, added));
        }
    }
    Ok(out)
}

/// Everything persisted, as text rows, for "nothing changed" comparisons.
pub fn dump(c: &rusqlite::Connection) -> Result<BTreeMap<String, Vec<String>>, String> {
    let mut out = BTreeMap::new();
    for (name, sql) in [
        ("datoms", "SELECT e, a, v, tx, value_type_tag, index_avet, index_vaet, index_fulltext, unique_value FROM datoms"),
        ("log", "SELECT e, a, v, tx, added, value_type_tag, timeline FROM timelined_transactions"),
        ("fulltext", "SELECT rowid, text FROM fulltext_values"),
        ("idents", "SELECT e, a, v, value_type_tag FROM idents"),
        ("schema", "SELECT e, a, v, value_type_tag FROM schema"),
        ("parts", "SELECT part, start, idx FROM parts"),
        ("known_parts", "SELECT part, start, end, allow_excision FROM known_parts"),
    ] {
        let mut st = c.prepare(sql).map_err(se)?;
        let n = st.column_count();
        let mut rows = st.query(rusqlite::params![]).map_err(se)?;
        let mut v = vec![];
        while let Some(r) = rows.next().map_err(se)? {
            let mut s = String::new();
            for i in 0..n {
                let x: rusqlite::types::Value = r.get(i).map_err(se)?;
                s.push_str(&format!("{:?}|", x));
            }
            v.push(s);
        }
        v.sort();
        out.insert(name.to_string(), v);
    }
    Ok(out)
}

pub fn diff_dump(a: &BTreeMap<String, Vec<String>>, b: &BTreeMap<String, Vec<String>>) -> Option<String> {
    for (k, va) in a {
        let vb = &b[k];
        if va != vb {
            let sa: BTreeSet<_> = va.iter().collect();
            let sb: BTreeSet<_> = vb.iter().collect();
            return Some(format!(
                "table {} differs: only before {:?}; only after {:?}",
                k,
                sa.difference(&sb).take(5).collect::<Vec<_>>(),
                sb.difference(&sa).take(5).collect::<Vec<_>>()
            ));
        }
    }
    None
}

pub fn diff_sets<T: Ord + std::fmt::Debug>(want: &BTreeSet<T>, got: &BTreeSet<T>) -> Option<String> {
    if want == got {
        return None;
    }
    Some(format!(
        "missing {:?}; unexpected {:?}",
        want.difference(got).take(6).collect::<Vec<_>>(),
        got.difference(want).take(6).collect::<Vec<_>>()
    ))
}

pub fn diff_facts(want: &BTreeMap<Fact, i64>, got: &BTreeMap<Fact, i64>) -> Option<String> {
    if want == got {
        return None;
    }
    let w: BTreeSet<(i64, i64, V, i64)> = want.iter().map(|((e, a, v), t)| (*e, *a, v.clone(), *t)).collect();
    let g: BTreeSet<(i64, i64, V, i64)> = got.iter().map(|((e, a, v), t)| (*e, *a, v.clone(), *t)).collect();
    diff_sets(&w, &g).map(|d| format!("facts [e a v tx]: {}", d))
}
