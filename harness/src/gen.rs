//! Generators: schemas, values, transactions.

use crate::engine::Src;
use crate::model::*;
use crate::vals::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct AttrDef {
    pub ident: String,
    pub attr: Attr,
}

pub const ATTR_NAMES: [&str; 14] = [
    ":t/a0", ":t/a1", ":t/a2", ":t/a3", ":u/a0", ":u/a1", ":org.x/b0", ":org.x/b1", ":t/c-d", ":t/e?", ":w/f0", ":w/f1", ":w/f2", ":w/f3",
];

pub fn gen_attr(s: &mut Src, vt: Vt) -> Attr {
    let mut a = Attr::new(vt);
    a.many = s.chance(2, 5);
    match s.weighted(&[6, 3, 1]) {
        1 => {
            a.unique = Some(Uniq::Identity);
            a.index = true;
        }
        2 => {
            a.unique = Some(Uniq::Value);
            a.index = true;
        }
        _ => {}
    }
    if vt == Vt::Str && s.chance(1, 3) {
        a.fulltext = true;
        a.index = true;
    }
    if vt == Vt::Ref && s.chance(1, 3) {
        a.component = true;
    }
    if !a.index {
        a.index = s.chance(1, 4);
    }
    a
}

/// A schema with one attribute of some types guaranteed.
pub fn gen_schema(s: &mut Src, lo: usize, hi: usize) -> Vec<AttrDef> {
    let n = s.size(lo, hi);
    let mut out = vec![];
    for i in 0..n {
        let vt = if i == 0 {
            Vt::Ref
        } else if i == 1 {
            Vt::Str
        } else {
            *s.pick(&[Vt::Long, Vt::Ref, Vt::Str, Vt::Kw, Vt::Bool, Vt::Dbl, Vt::Inst, Vt::Uuid])
        };
        out.push(AttrDef { ident: ATTR_NAMES[i].to_string(), attr: gen_attr(s, vt) });
    }
    // An identity attribute makes upserts and lookup refs possible.
    if !out.iter().any(|a| a.attr.unique == Some(Uniq::Identity)) {
        let last = out.last_mut().unwrap();
        last.attr.unique = Some(Uniq::Identity);
        last.attr.index = true;
    }
    out
}

pub fn attr_kvs(a: &Attr) -> Vec<(String, String)> {
    let mut v = vec![
        (":db/valueType".to_string(), a.vt.ident().to_string()),
        (":db/cardinality".to_string(), if a.many { ":db.cardinality/many" } else { ":db.cardinality/one" }.to_string()),
    ];
    match a.unique {
        Some(Uniq::Identity) => v.push((":db/unique".into(), ":db.unique/identity".into())),
        Some(Uniq::Value) => v.push((":db/unique".into(), ":db.unique/value".into())),
        None => {}
    }
    if a.index {
        v.push((":db/index".into(), "true".into()));
    }
    if a.fulltext {
        v.push((":db/fulltext".into(), "true".into()));
    }
    if a.component {
        v.push((":db/isComponent".into(), "true".into()));
    }
    if a.nohist {
        v.push((":db/noHistory".into(), "true".into()));
    }
    v
}

/// The transaction that installs a schema, as model entities.
pub fn schema_ents(defs: &[AttrDef]) -> Vec<Ent> {
    let mut out = vec![];
    for d in defs {
        let mut kvs = vec![(ARef::id(":db/ident"), Vp::Val(V::kw(&d.ident)))];
        for (k, v) in attr_kvs(&d.attr) {
            let vv = if v == "true" { V::Bool(true) } else { V::Kw(v) };
            kvs.push((ARef::id(&k), Vp::Val(vv)));
        }
        out.push(Ent::Map(Some(Ep::Temp(format!("attr{}", d.ident))), kvs));
    }
    out
}

pub const STRS: [&str; 14] = [
    "", "a", "b", "A", "ab", "a b", "quick brown fox", "lazy \"dog\"", "back\\slash", "π ☃ é", "line\nbreak", "it's", ":kw/like", "0",
];

/// A value of type `vt` from a small pool, so that collisions are frequent.
pub fn small_value(s: &mut Src, vt: Vt, ents: &[i64]) -> V {
    match vt {
        Vt::Long => V::Long(*s.pick(&[0, 1, 2, -1, 3, i64::max_value(), i64::min_value(), 65536])),
        Vt::Dbl => V::Dbl(D(*s.pick(&[0.5, 1.0, 2.5, -1.25, 1e300, 0.0, 3.0]))),
        Vt::Bool => V::Bool(s.bool()),
        Vt::Str => V::Str(s.pick(&STRS[..]).to_string()),
        Vt::Kw => V::Kw(s.pick(&[":k/a", ":k/b", ":k.l/a", ":k/a-b", ":t/a0"]).to_string()),
        Vt::Inst => V::Inst(*s.pick(&[0, 1, 1_500_000_000_000_000, -1_000_000, 1_500_000_000_000_001, 1_500_000_000_123_000])),
        Vt::Uuid => {
            let k = 1 + s.below(3) as u8;
            V::Uuid([k, 0xab, 0, 0, 0xcd, 0, 0x40, 0, 0x80, 0, 0, 0, 0, 0, 0, k])
        }
        Vt::Ref => {
            if ents.is_empty() {
                V::Ref(37)
            } else {
                V::Ref(*s.pick(ents))
            }
        }
    }
}

#[derive(Clone)]
pub struct TxGen {
    pub defs: Vec<AttrDef>,
    /// Deliberate errors, per mille of entities.
    pub bad: u64,
    pub max_ents: usize,
    pub maps: bool,
    pub idents: Vec<String>,
    pub retract_pct: u64,
    pub temps: Vec<&'static str>,
}

pub const TEMPS: [&str; 5] = ["t", "x", "b", "long tempid", "q1"];

impl TxGen {
    pub fn new(defs: &[AttrDef]) -> TxGen {
        TxGen { defs: defs.to_vec(), bad: 25, max_ents: 6, maps: true, idents: vec![":e/one".into(), ":e/two".into(), ":e.x/three".into()], retract_pct: 25, temps: TEMPS.to_vec() }
    }

    pub fn user_ents(&self, m: &Model) -> Vec<i64> {
        // Entities of the user partition that carry data (not attribute definitions).
        let mut v: Vec<i64> = m.facts.keys().filter(|(e, _, _)| *e >= USER0 && *e < TX0 && !m.schema.contains_key(e)).map(|(e, _, _)| *e).collect();
        v.dedup();
        // Recent ids that may have no facts.
        for e in (std::cmp::max(USER0, m.next_user - 3)..m.next_user).filter(|e| !m.schema.contains_key(e)) {
            if !v.contains(&e) {
                v.push(e);
            }
        }
        v
    }

    fn unique_attrs(&self) -> Vec<&AttrDef> {
        self.defs.iter().filter(|d| d.attr.unique.is_some()).collect()
    }

    pub fn lookup(&self, s: &mut Src, m: &Model, ents: &[i64]) -> Option<(AName, V)> {
        let us = self.unique_attrs();
        if us.is_empty() {
            return None;
        }
        let d = *s.pick(&us);
        let aid = *m.idents.get(&d.ident)?;
        let have: Vec<V> = m.facts.keys().filter(|(_, a, _)| *a == aid).map(|(_, _, v)| v.clone()).collect();
        let v = if !have.is_empty() && !s.chance(1, 25) {
            s.pick(&have).clone()
        } else if s.chance(1, 3) {
            small_value(s, d.attr.vt, ents)
        } else {
            return None;
        };
        let name = if s.chance(1, 5) { AName::Id(aid) } else { AName::Ident(d.ident.clone()) };
        Some((name, v))
    }

    pub fn epos(&self, s: &mut Src, m: &Model, ents: &[i64]) -> Ep {
        if self.bad > 0 && s.chance(self.bad, 2000) {
            return match s.below(8) {
                0 => Ep::Id(m.next_user + 1_000_000),
                1 => Ep::Ident(":no/such".into()),
                2 => Ep::Id(m.next_tx + 1_000),
                3 => Ep::Id(std::cmp::max(m.next_user, m.next_max)),
                4 => Ep::Id(m.next_tx),
                5 => Ep::Id(DB_MAX),
                6 => Ep::Id(USER0 - 1),
                _ => Ep::Id(TX0 - 1),
            };
        }
        match s.weighted(&[8, 8, 2, 1, 1]) {
            1 if !ents.is_empty() => Ep::Id(*s.pick(ents)),
            2 => match self.lookup(s, m, ents) {
                Some((a, v)) => Ep::Lookup(a, v),
                None => Ep::Temp(s.pick(&self.temps[..]).to_string()),
            },
            3 => Ep::Tx,
            4 => {
                let is: Vec<&String> = self.idents.iter().filter(|i| m.idents.contains_key(*i)).collect();
                if is.is_empty() {
                    Ep::Temp(s.pick(&self.temps[..]).to_string())
                } else {
                    Ep::Ident((*s.pick(&is)).clone())
                }
            }
            _ => Ep::Temp(s.pick(&self.temps[..]).to_string()),
        }
    }

    pub fn aref(&self, s: &mut Src, m: &Model, ident: &str) -> ARef {
        if s.chance(1, 8) {
            if let Some(i) = m.idents.get(ident) {
                return ARef { name: AName::Id(*i), rev: false };
            }
        }
        ARef::id(ident)
    }

    pub fn vpos(&self, s: &mut Src, m: &Model, ents: &[i64], d: &AttrDef) -> Vp {
        if self.bad > 0 && s.chance(self.bad, 1000) {
            // A value of some other type.
            let vt = *s.pick(&ALL_VT);
            return Vp::Val(small_value(s, vt, ents));
        }
        if d.attr.vt == Vt::Ref {
            return match s.weighted(&[6, 6, 2, 1, 1]) {
                1 => Vp::Val(small_value(s, Vt::Ref, ents)),
                2 => match self.lookup(s, m, ents) {
                    Some((a, v)) => Vp::Lookup(a, v),
                    None => Vp::Temp(s.pick(&self.temps[..]).to_string()),
                },
                3 => Vp::Tx,
                4 => {
                    let is: Vec<&String> = self.idents.iter().filter(|i| m.idents.contains_key(*i)).collect();
                    if is.is_empty() {
                        Vp::Temp(s.pick(&self.temps[..]).to_string())
                    } else {
                        Vp::Val(V::Kw((*s.pick(&is)).clone()))
                    }
                }
                _ => Vp::Temp(s.pick(&self.temps[..]).to_string()),
            };
        }
        Vp::Val(small_value(s, d.attr.vt, ents))
    }

    fn kvs(&self, s: &mut Src, m: &Model, ents: &[i64], depth: usize) -> Vec<(ARef, Vp)> {
        let n = s.size(1, 3);
        let mut used: Vec<String> = vec![];
        let mut out: Vec<(ARef, Vp)> = vec![];
        for _ in 0..n {
            let d = s.pick(&self.defs).clone();
            let rev = d.attr.vt == Vt::Ref && s.chance(1, 4);
            let key = format!("{}{}", rev, d.ident);
            if used.contains(&key) {
                continue;
            }
            used.push(key);
            if rev {
                let v = match s.below(3) {
                    0 => Vp::Temp(s.pick(&self.temps[..]).to_string()),
                    1 if !ents.is_empty() => Vp::Val(V::Ref(*s.pick(ents))),
                    _ => match self.lookup(s, m, ents) {
                        Some((a, v)) => Vp::Lookup(a, v),
                        None => Vp::Temp(s.pick(&self.temps[..]).to_string()),
                    },
                };
                out.push((ARef::rev(&d.ident), v));
                continue;
            }
            let v = self.map_value(s, m, ents, &d, depth);
            out.push((ARef::id(&d.ident), v));
        }
        out
    }

    fn map_value(&self, s: &mut Src, m: &Model, ents: &[i64], d: &AttrDef, depth: usize) -> Vp {
        if d.attr.many && s.chance(1, 3) {
            let n = s.size(0, 3);
            let vs = (0..n).map(|_| if d.attr.vt == Vt::Ref && depth < 2 && s.chance(1, 3) { self.nested(s, m, ents, d, depth) } else { self.vpos(s, m, ents, d) }).collect();
            return Vp::Vec(vs);
        }
        if d.attr.vt == Vt::Ref && depth < 2 && s.chance(1, 3) {
            return self.nested(s, m, ents, d, depth);
        }
        self.vpos(s, m, ents, d)
    }

    fn nested(&self, s: &mut Src, m: &Model, ents: &[i64], d: &AttrDef, depth: usize) -> Vp {
        let mut kvs = self.kvs(s, m, ents, depth + 1);
        let mut id = if s.chance(1, 3) { Some(self.epos(s, m, ents)) } else { None };
        // Mostly avoid dangling nested maps.
        let ident_attr = |k: &ARef| self.defs.iter().any(|x| AName::Ident(x.ident.clone()) == k.name && x.attr.unique == Some(Uniq::Identity));
        if id.is_none() && !d.attr.component && !kvs.iter().any(|(k, _)| k.rev || ident_attr(k)) && !(self.bad > 0 && s.chance(1, 10)) {
            if s.bool() {
                id = Some(Ep::Temp(s.pick(&self.temps[..]).to_string()));
            } else if let Some(u) = self.defs.iter().find(|x| x.attr.unique == Some(Uniq::Identity) && x.attr.vt != Vt::Ref) {
                kvs.push((ARef::id(&u.ident), Vp::Val(small_value(s, u.attr.vt, ents))));
            } else {
                id = Some(Ep::Temp("t".into()));
            }
        }
        Vp::Map(id, kvs)
    }

    pub fn ent(&self, s: &mut Src, m: &Model, ents: &[i64]) -> Ent {
        if self.defs.is_empty() {
            return Ent::add(Ep::Temp("t".into()), ":db/doc", Vp::Val(V::s("doc")));
        }
        // Retractions of existing facts.
        if s.chance(self.retract_pct, 100) {
            let user: Vec<(i64, i64, V)> = m.facts.keys().filter(|(e, a, _)| (*e >= USER0) && !(is_schema_attr(*a) && *a != core::IDENT) && *a != core::TX_INSTANT && !m.schema.contains_key(e)).cloned().collect();
            if !user.is_empty() {
                let (e, a, v) = s.pick(&user).clone();
                let mut v = v;
                if s.chance(1, 5) && a != core::IDENT {
                    // An absent value of a right type.
                    if let Some(at) = m.schema.get(&a) {
                        v = small_value(s, at.vt, ents);
                    }
                }
                let name = match m.idents.iter().find(|(_, i)| **i == a) {
                    Some((k, _)) if !s.chance(1, 8) => AName::Ident(k.clone()),
                    _ => AName::Id(a),
                };
                return Ent::List(false, Ep::Id(e), ARef { name, rev: false }, Vp::Val(v));
            }
        }
        match s.weighted(&[12, if self.maps { 5 } else { 0 }, if self.maps { 1 } else { 0 }, 1, 1, 2]) {
            1 => {
                let id = match s.below(3) {
                    0 => None,
                    _ => Some(self.epos(s, m, ents)),
                };
                Ent::Map(id, self.kvs(s, m, ents, 0))
            }
            2 => {
                // Reversed list form.
                let rs: Vec<&AttrDef> = self.defs.iter().filter(|d| d.attr.vt == Vt::Ref).collect();
                if rs.is_empty() {
                    return Ent::add(Ep::Temp("t".into()), ":db/doc", Vp::Val(V::s("doc")));
                }
                let d = (*s.pick(&rs)).clone();
                let v = match s.below(2) {
                    0 => Vp::Temp(s.pick(&self.temps[..]).to_string()),
                    _ if !ents.is_empty() => Vp::Val(V::Ref(*s.pick(ents))),
                    _ => Vp::Temp("t".into()),
                };
                Ent::List(!s.chance(1, 4), self.epos(s, m, ents), ARef::rev(&d.ident), v)
            }
            3 => {
                // Name an entity.
                let k = s.pick(&self.idents).clone();
                Ent::add(self.epos(s, m, ents), ":db/ident", Vp::Val(V::Kw(k)))
            }
            4 => Ent::add(self.epos(s, m, ents), ":db/doc", Vp::Val(V::Str(s.pick(&STRS[..]).to_string()))),
            5 => {
                // Re-assert an existing fact, or give it another value.
                let user: Vec<(i64, i64, V)> = m.facts.keys().filter(|(e, a, _)| *e >= USER0 && !is_schema_attr(*a) && *a != core::TX_INSTANT && !m.schema.contains_key(e)).cloned().collect();
                if user.is_empty() {
                    let d = s.pick(&self.defs).clone();
                    return Ent::List(true, self.epos(s, m, ents), self.aref(s, m, &d.ident), self.vpos(s, m, ents, &d));
                }
                let (e, a, v) = s.pick(&user).clone();
                let v = if s.bool() { v } else { small_value(s, v.vt(), ents) };
                Ent::List(true, Ep::Id(e), ARef { name: AName::Id(a), rev: false }, Vp::Val(v))
            }
            _ => {
                let d = s.pick(&self.defs).clone();
                let e = self.epos(s, m, ents);
                let a = self.aref(s, m, &d.ident);
                let v = if d.attr.many && self.maps && s.chance(1, 8) { Vp::Vec((0..s.size(0, 3)).map(|_| self.vpos(s, m, ents, &d)).collect()) } else { self.vpos(s, m, ents, &d) };
                // Retractions through lookups and tempids.
                let add = !s.chance(1, 15);
                Ent::List(add, e, a, v)
            }
        }
    }

    pub fn tx(&self, s: &mut Src, m: &Model) -> Vec<Ent> {
        let ents = self.user_ents(m);
        let n = s.size(0, self.max_ents);
        (0..n).map(|_| self.ent(s, m, &ents)).collect()
    }

    /// A transaction the model accepts: drops entities until it does.
    pub fn ok_tx(&self, s: &mut Src, m: &Model) -> Vec<Ent> {
        reduce(self.tx(s, m), m)
    }
}

/// Drops entities until the model accepts the transaction.
pub fn reduce(mut t: Vec<Ent>, m: &Model) -> Vec<Ent> {
    while !t.is_empty() && m.plan(&t).is_err() {
        // Remove the first entity whose removal helps, else the last.
        let mut done = false;
        for i in 0..t.len() {
            let mut u = t.clone();
            u.remove(i);
            if m.plan(&u).is_ok() {
                t = u;
                done = true;
                break;
            }
        }
        if !done {
            t.pop();
        }
    }
    t
}

/// The user's attributes that have an ident, as they are now.
pub fn defs_of(m: &Model) -> Vec<AttrDef> {
    let mut v: Vec<AttrDef> = m
        .idents
        .iter()
        .filter(|(_, e)| **e >= USER0)
        .filter_map(|(k, e)| m.schema.get(e).map(|a| AttrDef { ident: k.clone(), attr: a.clone() }))
        .collect();
    v.sort_by(|a, b| m.idents[&a.ident].cmp(&m.idents[&b.ident]));
    v
}

fn uniq_kw(u: Uniq) -> V {
    V::kw(match u {
        Uniq::Identity => ":db.unique/identity",
        Uniq::Value => ":db.unique/value",
    })
}

/// Entities that install, alter, rename or remove attributes; many are refused by the rules.
pub fn alteration(s: &mut Src, m: &Model) -> Vec<Ent> {
    let defs = defs_of(m);
    let ep = |s: &mut Src, d: &AttrDef| if s.bool() { Ep::Ident(d.ident.clone()) } else { Ep::Id(m.idents[&d.ident]) };
    let many = |b: bool| Vp::Val(V::kw(if b { ":db.cardinality/many" } else { ":db.cardinality/one" }));
    if defs.is_empty() || s.chance(1, 8) {
        // Install a new one.
        let vt = *s.pick(&ALL_VT);
        let a = gen_attr(s, vt);
        let mut a = a;
        a.nohist = s.chance(1, 8);
        let ident = s.pick(&ATTR_NAMES[..]).to_string();
        let mut e = schema_ents(&[AttrDef { ident, attr: a }]);
        if s.chance(1, 6) {
            // Leave something out.
            if let Ent::Map(_, ref mut kvs) = e[0] {
                let i = s.idx(kvs.len());
                kvs.remove(i);
            }
        }
        return e;
    }
    let d = s.pick(&defs).clone();
    let e = ep(s, &d);
    let id = m.idents[&d.ident];
    match s.weighted(&[6, 4, 2, 4, 3, 2, 3, 1, 2, 2, 1, 2]) {
        0 => {
            let flip = if s.chance(4, 5) { !d.attr.many } else { d.attr.many };
            vec![Ent::add(e, ":db/cardinality", many(flip))]
        }
        1 => {
            let u = if s.bool() { Uniq::Identity } else { Uniq::Value };
            let mut v = vec![Ent::add(e.clone(), ":db/unique", Vp::Val(uniq_kw(u)))];
            if !d.attr.index && !s.chance(1, 5) {
                v.push(Ent::add(e, ":db/index", Vp::Val(V::Bool(true))));
            }
            v
        }
        2 => {
            let u = match d.attr.unique {
                Some(u) if !s.chance(1, 6) => u,
                _ => Uniq::Value,
            };
            vec![Ent::retract(e, ":db/unique", Vp::Val(uniq_kw(u)))]
        }
        3 => vec![Ent::add(e, ":db/index", Vp::Val(V::Bool(s.bool())))],
        4 => vec![Ent::add(e, ":db/isComponent", Vp::Val(V::Bool(s.bool())))],
        5 => {
            let b = if s.chance(1, 5) { s.bool() } else { d.attr.component };
            vec![Ent::retract(e, ":db/isComponent", Vp::Val(V::Bool(b)))]
        }
        6 => {
            // Rename, perhaps onto a name in use or swapping two.
            let to = s.pick(&ATTR_NAMES[..]).to_string();
            let mut v = vec![Ent::add(Ep::Id(id), ":db/ident", Vp::Val(V::Kw(to.clone())))];
            if let Some(o) = m.idents.get(&to) {
                match s.below(3) {
                    0 => {}
                    1 => v.push(Ent::add(Ep::Id(*o), ":db/ident", Vp::Val(V::Kw(d.ident.clone())))),
                    _ => v.push(Ent::retract(Ep::Id(*o), ":db/ident", Vp::Val(V::Kw(to)))),
                }
            }
            v
        }
        7 => vec![Ent::retract(e, ":db/ident", Vp::Val(V::Kw(d.ident.clone())))],
        8 => {
            // Remove the attribute altogether (or fail to name everything needed).
            let mut v: Vec<Ent> = m
                .facts
                .keys()
                .filter(|(x, a, _)| *x == id && is_schema_attr(*a))
                .map(|(x, a, v)| Ent::List(false, Ep::Id(*x), ARef { name: AName::Id(*a), rev: false }, Vp::Val(v.clone())))
                .collect();
            if s.chance(1, 3) && !v.is_empty() {
                let i = s.idx(v.len());
                v.remove(i);
            }
            v
        }
        9 => {
            // Never permitted.
            match s.below(4) {
                0 => vec![Ent::add(e, ":db/valueType", Vp::Val(V::kw(s.pick(&ALL_VT).ident())))],
                1 => vec![Ent::add(e, ":db/fulltext", Vp::Val(V::Bool(s.bool())))],
                2 => vec![Ent::retract(e, ":db/cardinality", many(d.attr.many))],
                _ => vec![Ent::add(e, ":db/cardinality", Vp::Val(V::kw(":db.unique/value")))],
            }
        }
        10 => vec![Ent::add(e, ":db/noHistory", Vp::Val(V::Bool(s.bool())))],
        _ => {
            // Several at once.
            let mut v = vec![Ent::add(e.clone(), ":db/cardinality", many(s.bool())), Ent::add(e.clone(), ":db/index", Vp::Val(V::Bool(true)))];
            if s.bool() {
                v.push(Ent::add(e.clone(), ":db/unique", Vp::Val(uniq_kw(if s.bool() { Uniq::Identity } else { Uniq::Value }))));
            }
            if s.bool() {
                v.push(Ent::add(e, ":db/doc", Vp::Val(V::s("an attribute"))));
            }
            v
        }
    }
}

/// One step of a history in which the schema changes too.
pub fn evolving_tx(s: &mut Src, m: &Model, alter: u64, ok: bool) -> Vec<Ent> {
    let g = TxGen::new(&defs_of(m));
    if s.chance(alter, 100) {
        let mut t = alteration(s, m);
        if s.chance(1, 3) {
            t.extend(alteration(s, m));
        }
        if s.chance(1, 3) {
            t.extend(g.tx(s, m));
        }
        if ok {
            while !t.is_empty() && m.plan(&t).is_err() {
                t.pop();
            }
        }
        return t;
    }
    if ok {
        g.ok_tx(s, m)
    } else {
        g.tx(s, m)
    }
}

pub fn summarize(defs: &[AttrDef]) -> String {
    defs.iter()
        .map(|d| {
            format!(
                "{} {:?}{}{}{}{}{}",
                d.ident,
                d.attr.vt,
                if d.attr.many { " many" } else { "" },
                match d.attr.unique {
                    Some(Uniq::Identity) => " identity",
                    Some(Uniq::Value) => " unique",
                    None => "",
                },
                if d.attr.index { " index" } else { "" },
                if d.attr.fulltext { " fulltext" } else { "" },
                if d.attr.component { " component" } else { "" }
            )
        })
        .collect::<Vec<_>>()
        .join("; ")
}

#[allow(dead_code)]
pub type TempMap = BTreeMap<String, i64>;
