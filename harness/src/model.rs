//! Reference model of the transactor: facts as a set, transactions as declarative set changes.

use crate::vals::*;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Uniq {
    Value,
    Identity,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Attr {
    pub vt: Vt,
    pub many: bool,
    pub unique: Option<Uniq>,
    pub index: bool,
    pub fulltext: bool,
    pub component: bool,
    pub nohist: bool,
}

impl Attr {
    pub fn new(vt: Vt) -> Attr {
        Attr { vt, many: false, unique: None, index: false, fulltext: false, component: false, nohist: false }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum AName {
    Id(i64),
    Ident(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ARef {
    pub name: AName,
    pub rev: bool,
}

impl ARef {
    pub fn id(s: &str) -> ARef {
        ARef { name: AName::Ident(s.to_string()), rev: false }
    }
    pub fn rev(s: &str) -> ARef {
        ARef { name: AName::Ident(s.to_string()), rev: true }
    }
    pub fn edn(&self) -> String {
        match &self.name {
            AName::Id(i) => i.to_string(),
            AName::Ident(s) => {
                if self.rev {
                    let i = s.find('/').expect("namespaced");
                    format!("{}/_{}", &s[..i], &s[i + 1..])
                } else {
                    s.clone()
                }
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ep {
    Id(i64),
    Ident(String),
    Temp(String),
    Lookup(AName, V),
    Tx,
    /// Used internally for anonymous maps.
    Anon(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Vp {
    Val(V),
    Temp(String),
    Lookup(AName, V),
    Tx,
    Vec(Vec<Vp>),
    Map(Option<Ep>, Vec<(ARef, Vp)>),
    Anon(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ent {
    List(bool, Ep, ARef, Vp),
    Map(Option<Ep>, Vec<(ARef, Vp)>),
}

fn aname_edn(a: &AName) -> String {
    match a {
        AName::Id(i) => i.to_string(),
        AName::Ident(s) => s.clone(),
    }
}

impl Ep {
    pub fn edn(&self) -> String {
        match self {
            Ep::Id(i) => i.to_string(),
            Ep::Ident(s) => s.clone(),
            Ep::Temp(s) => edn_str(s),
            Ep::Lookup(a, v) => format!("(lookup-ref {} {})", aname_edn(a), v.edn()),
            Ep::Tx => "(transaction-tx)".to_string(),
            Ep::Anon(_) => unreachable!(),
        }
    }
}

impl Vp {
    pub fn edn(&self) -> String {
        match self {
            Vp::Val(v) => v.edn(),
            Vp::Temp(s) => edn_str(s),
            Vp::Lookup(a, v) => format!("(lookup-ref {} {})", aname_edn(a), v.edn()),
            Vp::Tx => "(transaction-tx)".to_string(),
            Vp::Vec(vs) => format!("[{}]", vs.iter().map(|v| v.edn()).collect::<Vec<_>>().join(" ")),
            Vp::Map(id, kvs) => map_edn(id, kvs),
            Vp::Anon(_) => unreachable!(),
        }
    }
}

fn map_edn(id: &Option<Ep>, kvs: &[(ARef, Vp)]) -> String {
    let mut parts = vec![];
    if let Some(e) = id {
        parts.push(format!(":db/id {}", e.edn()));
    }
    for (a, v) in kvs {
        parts.push(format!("{} {}", a.edn(), v.edn()));
    }
    format!("{{{}}}", parts.join(", "))
}

impl Ent {
    pub fn edn(&self) -> String {
        match self {
            Ent::List(add, e, a, v) => {
                format!("[{} {} {} {}]", if *add { ":db/add" } else { ":db/retract" }, e.edn(), a.edn(), v.edn())
            }
            Ent::Map(id, kvs) => map_edn(id, kvs),
        }
    }
    pub fn add(e: Ep, a: &str, v: Vp) -> Ent {
        Ent::List(true, e, ARef::id(a), v)
    }
    pub fn retract(e: Ep, a: &str, v: Vp) -> Ent {
        Ent::List(false, e, ARef::id(a), v)
    }
}

pub fn tx_edn(ents: &[Ent]) -> String {
    format!("[{}]", ents.iter().map(|e| e.edn()).collect::<Vec<_>>().join("\n "))
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum T {
    Ext(String),
    Int(usize),
}

#[derive(Clone, Debug, PartialEq)]
enum E1 {
    Id(i64),
    T(T),
    L(i64, V),
}

#[derive(Clone, Debug, PartialEq)]
enum V1 {
    V(V),
    T(T),
    L(i64, V),
}

#[derive(Clone, Debug)]
pub struct Effect {
    pub tx: i64,
    pub tempids: BTreeMap<String, i64>,
    /// Fresh ids, as predicted: contiguous from the next id of the user partition.
    pub fresh: Vec<i64>,
    /// Fresh ids with no external tempid.
    pub fresh_anon: Vec<i64>,
    /// How many tempids (before identification) needed a new entity.
    pub need: usize,
    pub upserted: usize,
    pub added: BTreeSet<(i64, i64, V)>,
    pub removed: BTreeSet<(i64, i64, V)>,
    pub noop_adds: usize,
    pub noop_retracts: usize,
    /// The instant, if the transaction states one.
    pub instant: Option<i64>,
    /// Every asserted/retracted datom after resolution, whether or not it changes anything.
    pub mentioned: BTreeSet<(i64, i64, V, bool)>,
}

impl Effect {
    pub fn rename(&mut self, m: &BTreeMap<i64, i64>) {
        let f = |e: i64| *m.get(&e).unwrap_or(&e);
        let fv = |v: &V| match v {
            V::Ref(e) => V::Ref(*m.get(e).unwrap_or(e)),
            v => v.clone(),
        };
        let g = |s: &BTreeSet<(i64, i64, V)>| s.iter().map(|(e, a, v)| (f(*e), *a, fv(v))).collect();
        self.added = g(&self.added);
        self.removed = g(&self.removed);
        self.mentioned = self.mentioned.iter().map(|(e, a, v, x)| (f(*e), *a, fv(v), *x)).collect();
        for v in self.tempids.values_mut() {
            *v = f(*v);
        }
        for v in self.fresh.iter_mut().chain(self.fresh_anon.iter_mut()) {
            *v = f(*v);
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Model {
    pub facts: BTreeMap<(i64, i64, V), i64>,
    pub log: BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>,
    pub next_user: i64,
    /// The allocator may have skipped ids from `next_user` up to this one.
    pub next_max: i64,
    pub next_tx: i64,
    pub schema: BTreeMap<i64, Attr>,
    pub idents: BTreeMap<String, i64>,
}

pub const TX0: i64 = 0x1000_0000;
pub const USER0: i64 = 0x10000;
pub const DB_MAX: i64 = 41;

/// entids of the core attributes (persisted format, asserted by the bootstrap transaction).
pub mod core {
    pub const IDENT: i64 = 1;
    pub const TX_INSTANT: i64 = 3;
    pub const VALUE_TYPE: i64 = 7;
    pub const CARDINALITY: i64 = 8;
    pub const UNIQUE: i64 = 9;
    pub const IS_COMPONENT: i64 = 10;
    pub const INDEX: i64 = 11;
    pub const FULLTEXT: i64 = 12;
    pub const NO_HISTORY: i64 = 13;
}

pub fn is_schema_attr(a: i64) -> bool {
    use self::core::*;
    a == IDENT || (VALUE_TYPE <= a && a <= NO_HISTORY)
}

impl Model {
    /// Start from the facts of a freshly created store.
    pub fn from_store(facts: BTreeMap<(i64, i64, V), i64>, log: BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>) -> Model {
        let mut m = Model { facts, log, next_user: USER0, next_max: USER0, next_tx: TX0 + 1, schema: BTreeMap::new(), idents: BTreeMap::new() };
        m.rederive();
        m
    }

    /// Schema and idents as functions of the facts.
    pub fn rederive(&mut self) {
        use self::core::*;
        let mut idents = BTreeMap::new();
        let mut rident: BTreeMap<i64, String> = BTreeMap::new();
        for ((e, a, v), _) in &self.facts {
            if *a == IDENT {
                if let V::Kw(k) = v {
                    idents.insert(k.clone(), *e);
                    rident.insert(*e, k.clone());
                }
            }
        }
        let mut schema: BTreeMap<i64, Attr> = BTreeMap::new();
        for ((e, a, v), _) in &self.facts {
            if *a == VALUE_TYPE {
                if let V::Ref(t) = v {
                    if let Some(k) = rident.get(t) {
                        if let Some(vt) = ALL_VT.iter().find(|x| x.ident() == k) {
                            schema.insert(*e, Attr::new(*vt));
                        }
                    }
                }
            }
        }
        for ((e, a, v), _) in &self.facts {
            let at = match schema.get_mut(e) {
                Some(x) => x,
                None => continue,
            };
            let name = if let V::Ref(t) = v { rident.get(t).cloned().unwrap_or_default() } else { String::new() };
            match *a {
                CARDINALITY => at.many = name == ":db.cardinality/many",
                UNIQUE => {
                    at.unique = match name.as_str() {
                        ":db.unique/value" => Some(Uniq::Value),
                        ":db.unique/identity" => Some(Uniq::Identity),
                        _ => None,
                    }
                }
                IS_COMPONENT => at.component = *v == V::Bool(true),
                INDEX => at.index = *v == V::Bool(true),
                FULLTEXT => at.fulltext = *v == V::Bool(true),
                NO_HISTORY => at.nohist = *v == V::Bool(true),
                _ => {}
            }
        }
        self.idents = idents;
        self.schema = schema;
    }

    pub fn fts(&self) -> BTreeSet<i64> {
        self.schema.iter().filter(|(_, a)| a.fulltext).map(|(e, _)| *e).collect()
    }

    pub fn allocated(&self, e: i64) -> bool {
        (e >= 0 && e < DB_MAX) || (e >= USER0 && e < self.next_user) || (e >= TX0 && e < self.next_tx)
    }

    pub fn values(&self, e: i64, a: i64) -> Vec<V> {
        self.facts
            .range((e, a, V::Ref(i64::min_value()))..)
            .take_while(|((e1, a1, _), _)| *e1 == e && *a1 == a)
            .map(|((_, _, v), _)| v.clone())
            .collect()
    }

    pub fn owners(&self, a: i64, v: &V) -> Vec<i64> {
        self.facts.keys().filter(|(_, a1, v1)| *a1 == a && v1 == v).map(|(e, _, _)| *e).collect()
    }

    pub fn aid(&self, a: &AName) -> Result<i64, String> {
        match a {
            AName::Id(i) => Ok(*i),
            AName::Ident(s) => self.idents.get(s).cloned().ok_or_else(|| format!("unknown ident {}", s)),
        }
    }

    fn attr(&self, a: i64) -> Result<&Attr, String> {
        self.schema.get(&a).ok_or_else(|| format!("{} is not an attribute", a))
    }

    /// A written value as a value of the attribute's type.
    pub fn coerce(&self, v: &V, vt: Vt) -> Result<V, String> {
        match (v, vt) {
            (V::Long(i), Vt::Ref) | (V::Ref(i), Vt::Ref) => Ok(V::Ref(*i)),
            (V::Kw(k), Vt::Ref) => self.idents.get(k).map(|e| V::Ref(*e)).ok_or_else(|| format!("unknown ident {}", k)),
            // An entity id is written as a plain integer.
            (V::Ref(i), Vt::Long) => Ok(V::Long(*i)),
            (v, vt) if v.vt() == vt => Ok(v.clone()),
            (v, vt) => Err(format!("value {} is not of type {:?}", v, vt)),
        }
    }

    fn lookup_place(&self, a: &AName, v: &V) -> Result<(i64, V), String> {
        let a = self.aid(a)?;
        let at = self.attr(a)?;
        let v = self.coerce(v, at.vt)?;
        if at.unique.is_none() {
            return Err("lookup ref with non-unique attribute".into());
        }
        Ok((a, v))
    }

    fn ep(&self, e: &Ep, tx: i64) -> Result<E1, String> {
        Ok(match e {
            Ep::Id(i) => {
                if !self.allocated(*i) && *i != tx {
                    return Err(format!("unallocated entid {}", i));
                }
                E1::Id(*i)
            }
            Ep::Ident(k) => E1::Id(*self.idents.get(k).ok_or_else(|| format!("unknown ident {}", k))?),
            Ep::Temp(t) => E1::T(T::Ext(t.clone())),
            Ep::Lookup(a, v) => {
                let (a, v) = self.lookup_place(a, v)?;
                E1::L(a, v)
            }
            Ep::Tx => E1::Id(tx),
            Ep::Anon(n) => E1::T(T::Int(*n)),
        })
    }

    /// The entity named by the value of a reversed attribute.
    fn rev_e(&self, v: &Vp, tx: i64) -> Result<E1, String> {
        Ok(match v {
            Vp::Val(V::Str(s)) => E1::T(T::Ext(s.clone())),
            Vp::Val(v) => match self.coerce(v, Vt::Ref)? {
                V::Ref(e) => {
                    if !self.allocated(e) && e != tx {
                        return Err(format!("unallocated entid {}", e));
                    }
                    E1::Id(e)
                }
                _ => unreachable!(),
            },
            Vp::Temp(s) => E1::T(T::Ext(s.clone())),
            Vp::Lookup(a, v) => {
                let (a, v) = self.lookup_place(a, v)?;
                E1::L(a, v)
            }
            Vp::Tx => E1::Id(tx),
            Vp::Anon(n) => E1::T(T::Int(*n)),
            Vp::Vec(_) | Vp::Map(..) => return Err("cannot explode reversed value".into()),
        })
    }

    fn sorted_kvs(kvs: &[(ARef, Vp)]) -> Vec<(ARef, Vp)> {
        let mut v = kvs.to_vec();
        v.sort_by(|x, y| match (&x.0.name, &y.0.name) {
            (AName::Id(a), AName::Id(b)) => a.cmp(b),
            (AName::Id(_), _) => std::cmp::Ordering::Less,
            (_, AName::Id(_)) => std::cmp::Ordering::Greater,
            _ => keyword(&x.0.edn()).cmp(&keyword(&y.0.edn())),
        });
        v
    }

    fn explode(&self, ents: &[Ent], tx: i64) -> Result<Vec<(bool, E1, i64, V1)>, String> {
        let mut q: VecDeque<Ent> = VecDeque::new();
        for ent in ents {
            q.push_back(match ent {
                // In text, [op v :a/_b e] is read as [op e :a/b v].
                Ent::List(op, e, a, v) if a.rev => {
                    let e2 = match v {
                        Vp::Val(V::Ref(i)) | Vp::Val(V::Long(i)) => Ep::Id(*i),
                        Vp::Val(V::Kw(k)) => Ep::Ident(k.clone()),
                        Vp::Val(V::Str(t)) | Vp::Temp(t) => Ep::Temp(t.clone()),
                        Vp::Lookup(a, v) => Ep::Lookup(a.clone(), v.clone()),
                        Vp::Tx => Ep::Tx,
                        _ => return Err("not an entity place".into()),
                    };
                    let v2 = match e {
                        Ep::Id(i) => Vp::Val(V::Ref(*i)),
                        Ep::Ident(k) => Vp::Val(V::Kw(k.clone())),
                        Ep::Temp(t) => Vp::Temp(t.clone()),
                        Ep::Lookup(a, v) => Vp::Lookup(a.clone(), v.clone()),
                        Ep::Tx => Vp::Tx,
                        Ep::Anon(n) => Vp::Anon(*n),
                    };
                    Ent::List(*op, e2, ARef { name: a.name.clone(), rev: false }, v2)
                }
                e => e.clone(),
            });
        }
        let mut anon = 0;
        let mut terms = vec![];
        let e2v = |e: E1| match e {
            E1::Id(i) => V1::V(V::Ref(i)),
            E1::T(t) => V1::T(t),
            E1::L(a, v) => V1::L(a, v),
        };
        while let Some(ent) = q.pop_front() {
            match ent {
                Ent::Map(id, kvs) => {
                    let id = id.unwrap_or_else(|| {
                        anon += 1;
                        Ep::Anon(anon)
                    });
                    for (a, v) in Self::sorted_kvs(&kvs) {
                        q.push_front(Ent::List(true, id.clone(), a, v));
                    }
                }
                Ent::List(add, e, a, v) => {
                    if a.rev {
                        let aid = self.aid(&a.name)?;
                        if self.attr(aid)?.vt != Vt::Ref {
                            return Err("reversed attribute is not a ref".into());
                        }
                        let re = self.rev_e(&v, tx)?;
                        let rv = e2v(self.ep(&e, tx)?);
                        terms.push((add, re, aid, rv));
                        continue;
                    }
                    let aid = self.aid(&a.name)?;
                    let at = self.attr(aid)?.clone();
                    let val = match v {
                        Vp::Val(V::Str(ref s)) if at.vt == Vt::Ref => V1::T(T::Ext(s.clone())),
                        Vp::Val(v) => V1::V(self.coerce(&v, at.vt)?),
                        // A string in value position of a non-ref attribute is just a string.
                        Vp::Temp(s) => {
                            if at.vt == Vt::Ref {
                                V1::T(T::Ext(s))
                            } else {
                                V1::V(self.coerce(&V::Str(s), at.vt)?)
                            }
                        }
                        Vp::Lookup(la, lv) => {
                            if at.vt != Vt::Ref {
                                return Err("lookup ref value of non-ref attribute".into());
                            }
                            let (la, lv) = self.lookup_place(&la, &lv)?;
                            V1::L(la, lv)
                        }
                        Vp::Tx => {
                            if at.vt != Vt::Ref {
                                return Err("transaction-tx value of non-ref attribute".into());
                            }
                            V1::V(V::Ref(tx))
                        }
                        Vp::Anon(n) => V1::T(T::Int(n)),
                        Vp::Vec(vs) => {
                            if !at.many {
                                return Err("vector for cardinality one".into());
                            }
                            for x in vs {
                                q.push_front(Ent::List(add, e.clone(), ARef { name: AName::Id(aid), rev: false }, x));
                            }
                            continue;
                        }
                        Vp::Map(id, kvs) => {
                            if !add {
                                return Err("nested map in retract".into());
                            }
                            if at.vt != Vt::Ref {
                                return Err("nested map for non-ref".into());
                            }
                            let mut dangling = id.is_none() && !at.component;
                            let id = id.unwrap_or_else(|| {
                                anon += 1;
                                Ep::Anon(anon)
                            });
                            for (ia, iv) in Self::sorted_kvs(&kvs) {
                                if ia.rev {
                                    dangling = false;
                                    let iaid = self.aid(&ia.name)?;
                                    if self.attr(iaid)?.vt != Vt::Ref {
                                        return Err("reversed attribute is not a ref".into());
                                    }
                                    let re = self.rev_e(&iv, tx)?;
                                    let rv = e2v(self.ep(&id, tx)?);
                                    terms.push((true, re, iaid, rv));
                                } else {
                                    let iaid = self.aid(&ia.name)?;
                                    if self.attr(iaid)?.unique == Some(Uniq::Identity) {
                                        dangling = false;
                                    }
                                    q.push_front(Ent::List(true, id.clone(), ARef { name: AName::Id(iaid), rev: false }, iv));
                                }
                            }
                            if dangling {
                                return Err("dangling nested map".into());
                            }
                            e2v(self.ep(&id, tx)?)
                        }
                    };
                    let e = self.ep(&e, tx)?;
                    terms.push((add, e, aid, val));
                }
            }
        }
        Ok(terms)
    }

    /// What this transaction does, or why it is refused.
    pub fn plan(&self, ents: &[Ent]) -> Result<Effect, String> {
        let tx = self.next_tx;
        let terms = self.explode(ents, tx)?;
        // Lookup refs.
        let find = |a: i64, v: &V| -> Result<i64, String> {
            let o = self.owners(a, v);
            o.first().cloned().ok_or_else(|| format!("lookup ref [{} {}] does not resolve", a, v))
        };
        let mut ts: Vec<(bool, Result<i64, T>, i64, Result<V, T>)> = vec![];
        for (op, e, a, v) in terms {
            let e = match e {
                E1::Id(i) => Ok(i),
                E1::T(t) => Err(t),
                E1::L(la, lv) => Ok(find(la, &lv)?),
            };
            let v = match v {
                V1::V(v) => Ok(v),
                V1::T(t) => Err(t),
                V1::L(la, lv) => Ok(V::Ref(find(la, &lv)?)),
            };
            self.attr(a)?;
            ts.push((op, e, a, v));
        }
        // Upserts, to a fixed point.
        let mut res: BTreeMap<T, i64> = BTreeMap::new();
        loop {
            let mut new: BTreeMap<T, i64> = BTreeMap::new();
            for (op, e, a, v) in &ts {
                if !*op || self.schema[a].unique != Some(Uniq::Identity) {
                    continue;
                }
                let t = match e {
                    Err(t) => t,
                    Ok(_) => continue,
                };
                let v = match v {
                    Ok(v) => v.clone(),
                    Err(t2) => match res.get(t2) {
                        Some(n) => V::Ref(*n),
                        None => continue,
                    },
                };
                if let Some(o) = self.owners(*a, &v).first() {
                    match new.get(t).or_else(|| res.get(t)) {
                        Some(p) if p != o => return Err(format!("conflicting upserts for {:?}: {} {}", t, p, o)),
                        Some(_) => {}
                        None => {
                            new.insert(t.clone(), *o);
                        }
                    }
                }
            }
            if new.is_empty() {
                break;
            }
            res.extend(new);
        }
        let upserted = res.len();
        // Identify and allocate the rest.
        let mut need: BTreeSet<T> = BTreeSet::new();
        let mut groups: BTreeMap<(i64, Result<V, T>), Vec<T>> = BTreeMap::new();
        for (op, e, a, v) in &ts {
            if !*op {
                continue;
            }
            let v2: Result<V, T> = match v {
                Err(t) => match res.get(t) {
                    Some(n) => Ok(V::Ref(*n)),
                    None => Err(t.clone()),
                },
                Ok(v) => Ok(v.clone()),
            };
            if let Err(t) = e {
                if !res.contains_key(t) {
                    need.insert(t.clone());
                    if self.schema[a].unique == Some(Uniq::Identity) {
                        groups.entry((*a, v2.clone())).or_insert_with(Vec::new).push(t.clone());
                    }
                }
            }
            if let Err(t) = &v2 {
                need.insert(t.clone());
            }
        }
        let tv: Vec<T> = need.into_iter().collect();
        let pos: BTreeMap<T, usize> = tv.iter().cloned().enumerate().map(|(i, t)| (t, i)).collect();
        let mut parent: Vec<usize> = (0..tv.len()).collect();
        fn root(p: &mut Vec<usize>, i: usize) -> usize {
            if p[i] == i {
                i
            } else {
                let r = root(p, p[i]);
                p[i] = r;
                r
            }
        }
        for g in groups.values() {
            for t in g {
                let a = root(&mut parent, pos[&g[0]]);
                let b = root(&mut parent, pos[t]);
                parent[b] = a;
            }
        }
        let mut label: BTreeMap<usize, i64> = BTreeMap::new();
        let mut fresh = vec![];
        let mut has_ext: BTreeSet<i64> = BTreeSet::new();
        for (i, t) in tv.iter().enumerate() {
            let r = root(&mut parent, i);
            let n = label.len() as i64;
            let id = *label.entry(r).or_insert(self.next_user + n);
            if id == self.next_user + n {
                fresh.push(id);
            }
            if let T::Ext(_) = t {
                has_ext.insert(id);
            }
            res.insert(t.clone(), id);
        }
        fresh.dedup();
        let fresh_anon = fresh.iter().filter(|i| !has_ext.contains(i)).cloned().collect();
        // Substitute.
        let mut adds: BTreeSet<(i64, i64, V)> = BTreeSet::new();
        let mut rets: BTreeSet<(i64, i64, V)> = BTreeSet::new();
        for (op, e, a, v) in &ts {
            let e = match e {
                Ok(e) => *e,
                Err(t) => *res.get(t).ok_or_else(|| "retract of a tempid that names nothing".to_string())?,
            };
            let v = match v {
                Ok(v) => v.clone(),
                Err(t) => V::Ref(*res.get(t).ok_or_else(|| "retract of a tempid that names nothing".to_string())?),
            };
            if v.vt() != self.schema[a].vt {
                return Err("type disagreement".into());
            }
            if *op {
                adds.insert((e, *a, v));
            } else {
                rets.insert((e, *a, v));
            }
        }
        if adds.intersection(&rets).next().is_some() {
            return Err("same fact added and retracted".into());
        }
        {
            let mut seen: BTreeSet<(i64, i64)> = BTreeSet::new();
            for (e, a, _) in &adds {
                if !self.schema[a].many && !seen.insert((*e, *a)) {
                    return Err("two values for a cardinality one attribute".into());
                }
            }
        }
        let mut mentioned: BTreeSet<(i64, i64, V, bool)> = BTreeSet::new();
        let mut added = BTreeSet::new();
        let mut removed = BTreeSet::new();
        let mut noop_adds = 0;
        let mut noop_retracts = 0;
        let mut instant = None;
        for (e, a, v) in &adds {
            mentioned.insert((*e, *a, v.clone(), true));
            if *e == tx && *a == core::TX_INSTANT {
                if let V::Inst(i) = v {
                    instant = Some(*i);
                }
            }
            if self.facts.contains_key(&(*e, *a, v.clone())) {
                noop_adds += 1;
                continue;
            }
            if !self.schema[a].many {
                for old in self.values(*e, *a) {
                    removed.insert((*e, *a, old));
                }
            }
            added.insert((*e, *a, v.clone()));
        }
        for (e, a, v) in &rets {
            mentioned.insert((*e, *a, v.clone(), false));
            if self.facts.contains_key(&(*e, *a, v.clone())) {
                removed.insert((*e, *a, v.clone()));
            } else {
                noop_retracts += 1;
            }
        }
        // Uniqueness over the resulting facts.
        for (e, a, v) in &added {
            if self.schema[a].unique.is_some() {
                for o in self.owners(*a, v) {
                    if o != *e && !removed.contains(&(o, *a, v.clone())) {
                        return Err(format!("unique value {} of {} already belongs to {}", v, a, o));
                    }
                }
                if added.iter().any(|(e2, a2, v2)| a2 == a && v2 == v && e2 != e) {
                    return Err(format!("unique value {} of {} given to two entities", v, a));
                }
            }
        }
        self.schema_check(&added, &removed)?;
        let tempids = res
            .iter()
            .filter_map(|(t, e)| match t {
                T::Ext(s) => Some((s.clone(), *e)),
                _ => None,
            })
            .collect();
        Ok(Effect { tx, tempids, fresh, fresh_anon, need: tv.len(), upserted, added, removed, noop_adds, noop_retracts, instant, mentioned })
    }

    /// The rules for installing, altering and removing attributes, over the net change.
    fn schema_check(&self, added: &BTreeSet<(i64, i64, V)>, removed: &BTreeSet<(i64, i64, V)>) -> Result<(), String> {
        use self::core::*;
        let adds: BTreeMap<(i64, i64), V> = added.iter().filter(|(_, a, _)| is_schema_attr(*a)).map(|(e, a, v)| ((*e, *a), v.clone())).collect();
        let rets: BTreeMap<(i64, i64), V> =
            removed.iter().filter(|(e, a, _)| is_schema_attr(*a) && !adds.contains_key(&(*e, *a))).map(|(e, a, v)| ((*e, *a), v.clone())).collect();
        let mut gone: BTreeSet<i64> = BTreeSet::new();
        for ((e, a), v) in &rets {
            if *a == IDENT {
                continue;
            }
            if rets.contains_key(&(*e, VALUE_TYPE)) && rets.contains_key(&(*e, CARDINALITY)) {
                if !rets.contains_key(&(*e, IDENT)) {
                    return Err("attribute removed but not its ident".into());
                }
                gone.insert(*e);
                continue;
            }
            let cur = self.schema.get(e);
            match *a {
                IS_COMPONENT => match (cur, v) {
                    (Some(c), V::Bool(b)) if c.component == *b => {}
                    _ => return Err("retracting :db/isComponent of no attribute".into()),
                },
                UNIQUE => {
                    if cur.map_or(true, |c| c.unique.is_none()) {
                        return Err("retracting :db/unique of no attribute".into());
                    }
                }
                _ => return Err(format!("retracting schema attribute {} alone", a)),
            }
        }
        let mut touched: BTreeSet<i64> = rets.keys().filter(|(_, a)| *a != IDENT).map(|(e, _)| *e).collect();
        touched.extend(adds.keys().filter(|(_, a)| *a != IDENT).map(|(e, _)| *e));
        let name = |v: &V| -> String {
            if let V::Ref(t) = v {
                // The idents of the fixed vocabulary.
                self.idents.iter().find(|(k, i)| *i == t && k.starts_with(":db.")).map(|(k, _)| k.clone()).unwrap_or_default()
            } else {
                String::new()
            }
        };
        for e in touched {
            let get = |a: i64| adds.get(&(e, a));
            let cur = if gone.contains(&e) { None } else { self.schema.get(&e) };
            if gone.contains(&e) && !adds.keys().any(|(x, a)| *x == e && *a != IDENT) {
                continue;
            }
            let mut at = match cur {
                None => {
                    let vt = get(VALUE_TYPE).ok_or("new attribute without a value type")?;
                    let k = name(vt);
                    Attr::new(*ALL_VT.iter().find(|x| x.ident() == k).ok_or("not a value type")?)
                }
                Some(c) => {
                    if get(VALUE_TYPE).is_some() || get(FULLTEXT).is_some() {
                        return Err("value type and fulltext cannot be altered".into());
                    }
                    c.clone()
                }
            };
            if rets.contains_key(&(e, UNIQUE)) {
                at.unique = None;
            }
            if rets.contains_key(&(e, IS_COMPONENT)) {
                at.component = false;
            }
            if let Some(v) = get(CARDINALITY) {
                at.many = match name(v).as_str() {
                    ":db.cardinality/many" => true,
                    ":db.cardinality/one" => false,
                    _ => return Err("not a cardinality".into()),
                };
            }
            if let Some(v) = get(UNIQUE) {
                at.unique = match name(v).as_str() {
                    ":db.unique/value" => Some(Uniq::Value),
                    ":db.unique/identity" => Some(Uniq::Identity),
                    _ => return Err("not a uniqueness".into()),
                };
            }
            let flag = |a: i64, old: bool| get(a).map_or(old, |v| *v == V::Bool(true));
            at.index = flag(INDEX, at.index);
            at.fulltext = flag(FULLTEXT, at.fulltext);
            at.component = flag(IS_COMPONENT, at.component);
            at.nohist = flag(NO_HISTORY, at.nohist);
            if at.unique.is_some() && !at.index {
                return Err("unique without index".into());
            }
            if at.fulltext && (at.vt != Vt::Str || !at.index) {
                return Err("fulltext without string or index".into());
            }
            if at.component && at.vt != Vt::Ref {
                return Err("component without ref".into());
            }
            if let Some(c) = cur {
                let mut values: Vec<(i64, V)> =
                    self.facts.keys().filter(|(e1, a, v)| *a == e && !removed.contains(&(*e1, *a, v.clone()))).map(|(e1, _, v)| (*e1, v.clone())).collect();
                values.extend(added.iter().filter(|(_, a, _)| *a == e).map(|(e1, _, v)| (*e1, v.clone())));
                if c.many && !at.many {
                    let es: BTreeSet<i64> = values.iter().map(|x| x.0).collect();
                    if es.len() != values.len() {
                        return Err("cardinality one over several values".into());
                    }
                }
                if c.unique.is_none() && at.unique.is_some() {
                    let vs: BTreeSet<V> = values.iter().map(|x| x.1.clone()).collect();
                    if vs.len() != values.len() {
                        return Err("unique over repeated values".into());
                    }
                }
            }
        }
        Ok(())
    }

    /// Apply an effect; `instant` is the transaction's instant in microseconds.
    pub fn apply(&mut self, ef: &Effect, instant: i64) {
        let mut entry = BTreeSet::new();
        for (e, a, v) in &ef.removed {
            self.facts.remove(&(*e, *a, v.clone()));
            entry.insert((*e, *a, v.clone(), false));
        }
        let mut added = ef.added.clone();
        added.insert((ef.tx, core::TX_INSTANT, V::Inst(instant)));
        let mut meta = ef.removed.iter().any(|(_, a, _)| is_schema_attr(*a));
        for (e, a, v) in &added {
            self.facts.insert((*e, *a, v.clone()), ef.tx);
            entry.insert((*e, *a, v.clone(), true));
            meta = meta || is_schema_attr(*a);
        }
        self.log.insert(ef.tx, entry);
        self.next_tx = ef.tx + 1;
        if let Some(x) = ef.fresh.iter().max() {
            self.next_user = std::cmp::max(self.next_user, *x + 1);
        }
        if ef.need > ef.fresh.len() {
            self.next_max = std::cmp::max(self.next_max, self.next_user) + ef.need as i64;
        } else if ef.need > 0 {
            self.next_max = self.next_user;
        }
        if meta {
            self.rederive();
        }
    }

    /// Match predicted fresh ids of named tempids to the reported ones.  Returns an error if the
    /// report is not a consistent renaming of the prediction to never-used ids.
    pub fn renaming(&self, ef: &Effect, reported: &BTreeMap<String, i64>) -> Result<BTreeMap<i64, i64>, String> {
        let want: BTreeSet<&String> = ef.tempids.keys().collect();
        let got: BTreeSet<&String> = reported.keys().collect();
        if want != got {
            return Err(format!("tempids reported {:?}, expected {:?}", got, want));
        }
        let fresh: BTreeSet<i64> = ef.fresh.iter().cloned().collect();
        let mut m: BTreeMap<i64, i64> = BTreeMap::new();
        for (t, e) in &ef.tempids {
            let r = reported[t];
            if !fresh.contains(e) {
                if r != *e {
                    return Err(format!("tempid {:?} resolved to {}, expected existing entity {}", t, r, e));
                }
                continue;
            }
            if let Some(p) = m.insert(*e, r) {
                if p != r {
                    return Err(format!("tempid {:?} got {}, but a tempid it is identified with got {}", t, r, p));
                }
            }
        }
        let vals: BTreeSet<i64> = m.values().cloned().collect();
        if vals.len() != m.len() {
            return Err(format!("distinct new entities share an id: {:?}", reported));
        }
        for v in &vals {
            if *v < self.next_user || *v >= TX0 {
                return Err(format!("new id {} is not a fresh id of the user partition (ids below {} are used)", v, self.next_user));
            }
        }
        Ok(m)
    }
}

pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}

/// Compare a real outcome with the model's effect and, if they agree up to the numbering of new
/// entities, apply it to the model.
pub fn reconcile(
    m: &mut Model,
    mut ef: Effect,
    tempids: &BTreeMap<String, i64>,
    tx_id: i64,
    instant: i64,
    facts: &BTreeMap<(i64, i64, V), i64>,
) -> Result<Effect, String> {
    if tx_id != ef.tx {
        return Err(format!("transaction id {}, expected {}", tx_id, ef.tx));
    }
    if let Some(i) = ef.instant {
        if i != instant {
            return Err(format!("reported instant {} differs from the asserted {}", instant, i));
        }
    }
    let base = m.renaming(&ef, tempids)?;
    // Ids that only this transaction can have introduced and that no tempid accounts for.
    let named: BTreeSet<i64> = base.values().cloned().collect();
    let mut news: BTreeSet<i64> = BTreeSet::new();
    for ((e, _, v), tx) in facts.iter() {
        if *tx == tx_id {
            if *e >= m.next_user && *e < TX0 && !named.contains(e) {
                news.insert(*e);
            }
            if let V::Ref(r) = v {
                if *r >= m.next_user && *r < TX0 && !named.contains(r) {
                    news.insert(*r);
                }
            }
        }
    }
    let news: Vec<i64> = news.into_iter().collect();
    let n = ef.fresh_anon.len();
    if news.len() < n {
        return Err(format!("{} anonymous new entities expected, {} new ids stored", n, news.len()));
    }
    let mut first_diff = None;
    let perms = if n <= 1 || n > 5 { vec![(0..n).collect()] } else { permutations(n) };
    for p in perms {
        let mut mm = base.clone();
        for (i, f) in ef.fresh_anon.iter().enumerate() {
            mm.insert(*f, news[p[i]]);
        }
        let mut x = ef.clone();
        x.rename(&mm);
        let mut after = m.clone();
        after.apply(&x, instant);
        if after.facts == *facts {
            *m = after;
            return Ok(x);
        }
        if first_diff.is_none() {
            first_diff = crate::db::diff_facts(&after.facts, facts);
        }
    }
    let _ = &mut ef;
    Err(first_diff.unwrap_or_default())
}
