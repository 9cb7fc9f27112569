//! P08: all notations of the same assertions.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p01::def;
use crate::p07::{split, temps};
use crate::vals::*;
use crate::world::*;
use core_traits::{KnownEntid, TypedValue};
use edn::entities as em;
use edn::{InternSet, PlainSymbol, ValueRc};
use mentat::entity_builder::{BuildTerms, TermBuilder};
use mentat::InProgress;
use mentat_core::TxReport;
use mentat_db::internal_types::{Term, TermWithTempIds};
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "P08",
    rule: "A store with named entities, unique attributes and references, and transactions generated as plain lists of additions and retractions of entity ids, tempids and the transaction. Each is rewritten several times at random: ids as idents or lookup refs, attributes as ids or idents, reversed attributes in lists and maps, maps, vectors, nested maps with and without :db/id, and handed over as text through Store::transact, as parsed entities, as programmatic entities (maps included), through TermBuilder, the in-progress builder and entity builders, and as terms with tempids; every rewriting must be accepted or refused like the plain list and give the same facts, tempids and transaction. Non-trivial: a transaction of at least two statements with a rewriting that uses at least two notations the plain list does not have.",
    quick_cases: 9000,
    thorough_cases: 60000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["the facts expected of the plain list are computed by the reference model"],
};

#[derive(Clone, Debug, PartialEq)]
struct St {
    add: bool,
    e: Ep,
    a: String,
    v: Vp,
}

fn schema(s: &mut Src) -> Vec<AttrDef> {
    let mut v = vec![
        def(":t/r", Vt::Ref, s.bool(), None),
        def(":t/c", Vt::Ref, true, None),
        def(":t/u", Vt::Ref, s.bool(), Some(Uniq::Identity)),
        def(":t/i", Vt::Long, s.chance(1, 3), Some(Uniq::Identity)),
        def(":t/s", Vt::Str, s.bool(), Some(Uniq::Value)),
        def(":t/n", *s.pick(&[Vt::Long, Vt::Dbl, Vt::Bool, Vt::Inst]), s.bool(), None),
        def(":t/k", Vt::Kw, s.bool(), None),
        def(":t/w", *s.pick(&[Vt::Uuid, Vt::Str]), s.bool(), if s.bool() { Some(Uniq::Identity) } else { None }),
    ];
    v[1].attr.component = true;
    v[0].attr.component = s.chance(1, 3);
    v
}

fn base(s: &mut Src, m: &Model, defs: &[AttrDef]) -> Vec<St> {
    let g = TxGen::new(defs);
    let mut ents = g.user_ents(m);
    ents.retain(|e| *e < m.next_user);
    let named: Vec<i64> = m.idents.values().filter(|e| **e >= USER0 && !m.schema.contains_key(e)).cloned().collect();
    let temps = ["t", "x", "y", "10"];
    let mut out: Vec<St> = vec![];
    let user: Vec<(i64, i64, V)> = m.facts.keys().filter(|(e, a, _)| *e >= USER0 && !is_schema_attr(*a) && *a != core::TX_INSTANT && !m.schema.contains_key(e)).cloned().collect();
    let aname = |a: i64| m.idents.iter().find(|(_, i)| **i == a).map(|(k, _)| k.clone());
    for _ in 0..s.size(1, 6) {
        if !user.is_empty() && s.chance(1, 5) {
            let (e, a, v) = s.pick(&user[..]).clone();
            if let Some(a) = aname(a) {
                out.push(St { add: s.chance(1, 4), e: Ep::Id(e), a, v: Vp::Val(v) });
            }
            continue;
        }
        let d = s.pick(defs).clone();
        let e = match s.weighted(&[6, 4, 2, 1]) {
            1 if !ents.is_empty() => Ep::Id(*s.pick(&ents[..])),
            2 if !named.is_empty() => Ep::Id(*s.pick(&named[..])),
            3 => Ep::Tx,
            _ => Ep::Temp(s.pick(&temps).to_string()),
        };
        let v = if d.attr.vt == Vt::Ref {
            match s.weighted(&[6, 4, 2, 1]) {
                1 if !ents.is_empty() => Vp::Val(V::Ref(*s.pick(&ents[..]))),
                2 if !named.is_empty() => Vp::Val(V::Ref(*s.pick(&named[..]))),
                3 => Vp::Tx,
                _ => Vp::Temp(s.pick(&temps).to_string()),
            }
        } else if s.chance(1, 60) && d.attr.vt != Vt::Str {
            // Of no type that could be taken for the attribute's.
            match s.below(3) {
                0 => Vp::Temp(s.pick(&temps).to_string()),
                1 if d.attr.vt != Vt::Kw => Vp::Val(V::kw(":e/one")),
                _ => Vp::Tx,
            }
        } else {
            Vp::Val(small_value(s, d.attr.vt, &[]))
        };
        out.push(St { add: !s.chance(1, 12), e, a: d.ident, v });
    }
    out
}

fn plain(b: &[St]) -> Vec<Ent> {
    b.iter().map(|x| Ent::List(x.add, x.e.clone(), ARef::id(&x.a), x.v.clone())).collect()
}

/// What a rewriting uses.
#[derive(Default)]
struct Used {
    set: BTreeSet<&'static str>,
    /// Tempids that became anonymous.
    anon: BTreeSet<String>,
}

fn aname(s: &mut Src, m: &Model, a: &str, u: &mut Used) -> AName {
    if s.chance(1, 4) {
        u.set.insert("attribute as an id");
        AName::Id(m.idents[a])
    } else {
        AName::Ident(a.to_string())
    }
}

fn lookup_of(s: &mut Src, m: &Model, e: i64, u: &mut Used) -> Option<(AName, V)> {
    let fs: Vec<(i64, V)> = m
        .facts
        .keys()
        .filter(|(x, a, _)| *x == e && m.schema.get(a).map_or(false, |at| at.unique.is_some()) && *a >= USER0)
        .map(|(_, a, v)| (*a, v.clone()))
        .collect();
    if fs.is_empty() {
        return None;
    }
    let (a, v) = s.pick(&fs[..]).clone();
    u.set.insert("lookup ref");
    let name = match m.idents.iter().find(|(_, i)| **i == a) {
        Some((k, _)) if s.bool() => AName::Ident(k.clone()),
        _ => AName::Id(a),
    };
    Some((name, v))
}

fn ident_of(m: &Model, e: i64) -> Option<String> {
    m.idents.iter().find(|(_, i)| **i == e).map(|(k, _)| k.clone())
}

fn write_e(s: &mut Src, m: &Model, e: &Ep, u: &mut Used) -> Ep {
    if let Ep::Id(i) = e {
        match s.below(3) {
            0 => {
                if let Some(k) = ident_of(m, *i) {
                    u.set.insert("entity as an ident");
                    return Ep::Ident(k);
                }
            }
            1 => {
                if let Some((a, v)) = lookup_of(s, m, *i, u) {
                    return Ep::Lookup(a, v);
                }
            }
            _ => (),
        }
    }
    e.clone()
}

fn write_v(s: &mut Src, m: &Model, v: &Vp, u: &mut Used) -> Vp {
    if let Vp::Val(V::Ref(i)) = v {
        match s.below(3) {
            0 => {
                if let Some(k) = ident_of(m, *i) {
                    u.set.insert("value as an ident");
                    return Vp::Val(V::Kw(k));
                }
            }
            1 => {
                if let Some((a, v)) = lookup_of(s, m, *i, u) {
                    return Vp::Lookup(a, v);
                }
            }
            _ => (),
        }
    }
    v.clone()
}

fn as_entity(v: &Vp) -> Option<Ep> {
    Some(match v {
        Vp::Val(V::Ref(i)) => Ep::Id(*i),
        Vp::Temp(t) => Ep::Temp(t.clone()),
        Vp::Tx => Ep::Tx,
        _ => return None,
    })
}

fn as_value(e: &Ep) -> Vp {
    match e {
        Ep::Id(i) => Vp::Val(V::Ref(*i)),
        Ep::Ident(k) => Vp::Val(V::Kw(k.clone())),
        Ep::Temp(t) => Vp::Temp(t.clone()),
        Ep::Tx => Vp::Tx,
        Ep::Lookup(a, v) => Vp::Lookup(a.clone(), v.clone()),
        Ep::Anon(_) => unreachable!(),
    }
}

/// Rewrite a plain list; `maps` allows map notation.
fn rewrite(s: &mut Src, m: &Model, defs: &[AttrDef], b: &[St], maps: bool, u: &mut Used) -> Vec<Ent> {
    let attr = |a: &str| defs.iter().find(|d| d.ident == a).map(|d| d.attr.clone());
    // Reverse some statements: (add, subject, attribute, object).
    struct R {
        add: bool,
        e: Ep,
        a: String,
        rev: bool,
        v: Vp,
    }
    let mut rs: Vec<R> = vec![];
    for x in b {
        let is_ref = attr(&x.a).map_or(false, |a| a.vt == Vt::Ref);
        if is_ref && s.chance(1, 3) {
            if let Some(e) = as_entity(&x.v) {
                let ok = if let Ep::Id(i) = &e { m.allocated(*i) } else { true };
                if ok {
                    u.set.insert("reversed attribute");
                    rs.push(R { add: x.add, e, a: x.a.clone(), rev: true, v: as_value(&x.e) });
                    continue;
                }
            }
        }
        rs.push(R { add: x.add, e: x.e.clone(), a: x.a.clone(), rev: false, v: x.v.clone() });
    }
    // Gather into maps.
    struct M {
        e: Ep,
        kvs: Vec<(String, bool, Vec<Vp>)>,
    }
    let mut ms: Vec<M> = vec![];
    let mut out: Vec<Ent> = vec![];
    let order = s.permutation(rs.len());
    for i in order {
        let r = &rs[i];
        let many = attr(&r.a).map_or(false, |a| a.many);
        if !maps || !r.add || s.chance(1, 3) {
            if r.add && !r.rev && many && s.chance(1, 6) {
                u.set.insert("vector");
                let a = ARef { name: aname(s, m, &r.a, u), rev: false };
                let v = write_v(s, m, &r.v, u);
                out.push(Ent::List(true, write_e(s, m, &r.e, u), a, Vp::Vec(vec![v])));
                continue;
            }
            let a = if r.rev { ARef::rev(&r.a) } else { ARef { name: aname(s, m, &r.a, u), rev: false } };
            let v = write_v(s, m, &r.v, u);
            out.push(Ent::List(r.add, write_e(s, m, &r.e, u), a, v));
            continue;
        }
        u.set.insert("map");
        let mut placed = false;
        for mm in ms.iter_mut().filter(|mm| mm.e == r.e) {
            match mm.kvs.iter_mut().find(|(a, rev, _)| *a == r.a && *rev == r.rev) {
                Some((_, _, vs)) if many && !r.rev => {
                    u.set.insert("vector");
                    vs.push(r.v.clone());
                    placed = true;
                }
                Some(_) => continue,
                None => {
                    mm.kvs.push((r.a.clone(), r.rev, vec![r.v.clone()]));
                    placed = true;
                }
            }
            if placed {
                break;
            }
        }
        if !placed {
            ms.push(M { e: r.e.clone(), kvs: vec![(r.a.clone(), r.rev, vec![r.v.clone()])] });
        }
    }
    // Write the keys and values.
    let mut done: Vec<(Option<Ep>, Vec<(ARef, Vp)>)> = vec![];
    for mm in ms {
        let mut kvs = vec![];
        for (a, rev, vs) in mm.kvs {
            let many = attr(&a).map_or(false, |a| a.many);
            let k = if rev { ARef::rev(&a) } else { ARef { name: aname(s, m, &a, u), rev: false } };
            let mut vs: Vec<Vp> = vs.iter().map(|v| write_v(s, m, v, u)).collect();
            let v = if vs.len() > 1 || (many && !rev && s.chance(1, 4)) { Vp::Vec(vs) } else { vs.pop().unwrap() };
            kvs.push((k, v));
        }
        done.push((Some(write_e(s, m, &mm.e, u)), kvs));
    }
    // Nest some: a map of a tempid takes the place of a reference to that tempid.
    let mut i = 0;
    while i < done.len() {
        let id = done[i].0.clone();
        if let Some(Ep::Temp(t)) = &id {
            if s.chance(9, 10) {
                // A place that refers to t, outside this map.
                let mut places: Vec<(usize, usize, Option<usize>)> = vec![];
                for (j, (_, kvs)) in done.iter().enumerate() {
                    if j == i {
                        continue;
                    }
                    for (k, (a, v)) in kvs.iter().enumerate() {
                        if a.rev {
                            continue;
                        }
                        match v {
                            Vp::Temp(x) if x == t => places.push((j, k, None)),
                            Vp::Vec(vs) => {
                                for (l, x) in vs.iter().enumerate() {
                                    if *x == Vp::Temp(t.clone()) {
                                        places.push((j, k, Some(l)));
                                    }
                                }
                            }
                            _ => (),
                        }
                    }
                }
                let lists: Vec<usize> = out.iter().enumerate().filter(|(_, e)| if let Ent::List(true, _, a, Vp::Temp(x)) = e { !a.rev && x == t } else { false }).map(|(i, _)| i).collect();
                if !places.is_empty() && s.chance(3, 4) {
                    let (j, k, l) = *s.pick(&places[..]);
                    let (id, kvs) = done[i].clone();
                    let nested = Vp::Map(id, kvs);
                    match l {
                        None => done[j].1[k].1 = nested,
                        Some(l) => {
                            if let Vp::Vec(vs) = &mut done[j].1[k].1 {
                                vs[l] = nested;
                            }
                        }
                    }
                    done.remove(i);
                    u.set.insert("nested map");
                    continue;
                } else if !lists.is_empty() {
                    let j = *s.pick(&lists[..]);
                    let (id, kvs) = done[i].clone();
                    if let Ent::List(_, _, _, v) = &mut out[j] {
                        *v = Vp::Map(id, kvs);
                    }
                    done.remove(i);
                    u.set.insert("nested map");
                    continue;
                }
            }
        }
        i += 1;
    }
    out.extend(done.into_iter().map(|(id, kvs)| Ent::Map(id, kvs)));
    // Make some tempids that are named once anonymous.
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    for e in &out {
        count_temps(e, &mut count);
    }
    let mut x = Anon { once: count.into_iter().filter(|(_, n)| *n == 1).map(|(t, _)| t).collect(), defs, m };
    for e in out.iter_mut() {
        if let Ent::Map(id, kvs) = e {
            if !kvs.is_empty() {
                x.id(s, id, true, u);
            }
            x.kvs(s, kvs, u);
        } else if let Ent::List(_, _, a, v) = e {
            let a = a.clone();
            x.value(s, &a, v, u);
        }
    }
    let p = s.permutation(out.len());
    p.into_iter().map(|i| out[i].clone()).collect()
}

struct Anon<'a> {
    once: BTreeSet<String>,
    defs: &'a [AttrDef],
    m: &'a Model,
}

impl<'a> Anon<'a> {
    fn attr(&self, a: &ARef) -> Option<&Attr> {
        let i = match &a.name {
            AName::Id(i) => Some(*i),
            AName::Ident(s) => self.m.idents.get(s).cloned(),
        };
        let _ = self.defs;
        i.and_then(|i| self.m.schema.get(&i))
    }
    fn id(&self, s: &mut Src, id: &mut Option<Ep>, reachable: bool, u: &mut Used) {
        let t = match id {
            Some(Ep::Temp(t)) if self.once.contains(t) => t.clone(),
            _ => return,
        };
        if reachable && s.chance(1, 2) {
            *id = None;
            u.set.insert("map without :db/id");
            u.anon.insert(t);
        }
    }
    fn kvs(&self, s: &mut Src, kvs: &mut Vec<(ARef, Vp)>, u: &mut Used) {
        for (a, v) in kvs.iter_mut() {
            let a = a.clone();
            self.value(s, &a, v, u);
        }
    }
    fn value(&self, s: &mut Src, a: &ARef, v: &mut Vp, u: &mut Used) {
        match v {
            Vp::Vec(vs) => vs.iter_mut().for_each(|v| self.value(s, a, v, u)),
            Vp::Map(id, kvs) => {
                let comp = self.attr(a).map_or(false, |x| x.component);
                let ident = kvs.iter().any(|(k, _)| !k.rev && self.attr(k).map_or(false, |x| x.unique == Some(Uniq::Identity)));
                self.id(s, id, comp || ident, u);
                self.kvs(s, kvs, u);
            }
            _ => (),
        }
    }
}

fn count_temps(e: &Ent, out: &mut BTreeMap<String, usize>) {
    fn v_(v: &Vp, out: &mut BTreeMap<String, usize>) {
        match v {
            Vp::Temp(t) => *out.entry(t.clone()).or_insert(0) += 1,
            Vp::Vec(vs) => vs.iter().for_each(|v| v_(v, out)),
            Vp::Map(id, kvs) => {
                if let Some(Ep::Temp(t)) = id {
                    *out.entry(t.clone()).or_insert(0) += 1;
                }
                kvs.iter().for_each(|(_, v)| v_(v, out));
            }
            _ => (),
        }
    }
    match e {
        Ent::List(_, e, _, v) => {
            if let Ep::Temp(t) = e {
                *out.entry(t.clone()).or_insert(0) += 1;
            }
            v_(v, out);
        }
        Ent::Map(id, kvs) => v_(&Vp::Map(id.clone(), kvs.clone()), out),
    }
}

// ---- programmatic forms ----

fn kw(s: &str) -> edn::Keyword {
    keyword(s)
}

fn attr_place(a: &ARef) -> em::EntidOrIdent {
    match &a.name {
        AName::Id(i) => em::EntidOrIdent::Entid(*i),
        AName::Ident(s) => {
            let k = kw(s);
            em::EntidOrIdent::Ident(if a.rev { k.to_reversed() } else { k })
        }
    }
}

fn lookup(a: &AName, v: &V) -> em::LookupRef<TypedValue> {
    match a {
        AName::Id(i) => TermBuilder::lookup_ref(*i, v.typed()),
        AName::Ident(s) => TermBuilder::lookup_ref(kw(s), v.typed()),
    }
}

fn e_place(e: &Ep) -> em::EntityPlace<TypedValue> {
    match e {
        Ep::Id(i) => em::EntityPlace::Entid(em::EntidOrIdent::Entid(*i)),
        Ep::Ident(s) => em::EntityPlace::Entid(em::EntidOrIdent::Ident(kw(s))),
        Ep::Temp(t) => em::EntityPlace::TempId(em::TempId::External(t.clone()).into()),
        Ep::Lookup(a, v) => em::EntityPlace::LookupRef(lookup(a, v)),
        Ep::Tx => em::EntityPlace::TxFunction(em::TxFunction { op: PlainSymbol::plain("transaction-tx") }),
        Ep::Anon(_) => unreachable!(),
    }
}

/// `alt` chooses between equivalent ways of writing a value.
fn v_place(v: &Vp, is_ref: bool, alt: bool) -> em::ValuePlace<TypedValue> {
    match v {
        Vp::Val(V::Ref(i)) if alt => em::ValuePlace::Entid(em::EntidOrIdent::Entid(*i)),
        Vp::Val(V::Kw(k)) if is_ref => em::ValuePlace::Entid(em::EntidOrIdent::Ident(kw(k))),
        Vp::Val(v) => em::ValuePlace::Atom(v.typed()),
        Vp::Temp(t) if alt => em::ValuePlace::Atom(TypedValue::String(t.clone().into())),
        Vp::Temp(t) => em::ValuePlace::TempId(em::TempId::External(t.clone()).into()),
        Vp::Lookup(a, v) => em::ValuePlace::LookupRef(lookup(a, v)),
        Vp::Tx => em::ValuePlace::TxFunction(em::TxFunction { op: PlainSymbol::plain("transaction-tx") }),
        Vp::Vec(vs) => em::ValuePlace::Vector(vs.iter().map(|v| v_place(v, is_ref, alt)).collect()),
        Vp::Map(..) | Vp::Anon(_) => unreachable!(),
    }
}

struct Prog<'a> {
    m: &'a Model,
    alt: bool,
}

impl<'a> Prog<'a> {
    fn is_ref(&self, a: &ARef) -> bool {
        let i = match &a.name {
            AName::Id(i) => Some(*i),
            AName::Ident(s) => self.m.idents.get(s).cloned(),
        };
        a.rev || i.and_then(|i| self.m.schema.get(&i)).map_or(false, |x| x.vt == Vt::Ref)
    }
    fn value(&self, a: &ARef, v: &Vp) -> em::ValuePlace<TypedValue> {
        match v {
            Vp::Map(id, kvs) => em::ValuePlace::MapNotation(self.map(id, kvs)),
            Vp::Vec(vs) => em::ValuePlace::Vector(vs.iter().map(|v| self.value(a, v)).collect()),
            v => v_place(v, self.is_ref(a), self.alt),
        }
    }
    fn map(&self, id: &Option<Ep>, kvs: &[(ARef, Vp)]) -> em::MapNotation<TypedValue> {
        let mut out = BTreeMap::new();
        if let Some(e) = id {
            let v = match e_place(e) {
                em::EntityPlace::Entid(e) => em::ValuePlace::Entid(e),
                em::EntityPlace::TempId(t) => em::ValuePlace::TempId(t),
                em::EntityPlace::LookupRef(l) => em::ValuePlace::LookupRef(l),
                em::EntityPlace::TxFunction(f) => em::ValuePlace::TxFunction(f),
            };
            out.insert(em::EntidOrIdent::Ident(kw(":db/id")), v);
        }
        for (a, v) in kvs {
            out.insert(attr_place(a), self.value(a, v));
        }
        out
    }
    fn entity(&self, e: &Ent) -> em::Entity<TypedValue> {
        match e {
            Ent::List(add, e, a, v) => em::Entity::AddOrRetract {
                op: if *add { em::OpType::Add } else { em::OpType::Retract },
                e: e_place(e),
                a: em::AttributePlace::Entid(attr_place(a)),
                v: self.value(a, v),
            },
            Ent::Map(id, kvs) => em::Entity::MapNotation(self.map(id, kvs)),
        }
    }
    fn feed<B: BuildTerms>(&self, b: &mut B, t: &[Ent]) -> Result<(), String> {
        for e in t {
            if let Ent::List(add, e, a, v) = e {
                let e: em::EntityPlace<TypedValue> = match e {
                    Ep::Temp(t) => b.named_tempid(t.clone()).into(),
                    e => e_place(e),
                };
                let r = if *add { b.add(e, attr_place(a), self.value(a, v)) } else { b.retract(e, attr_place(a), self.value(a, v)) };
                r.map_err(es)?;
            }
        }
        Ok(())
    }
}

/// Terms with tempids: only for plain lists (lookup refs and idents already resolved).
fn terms(m: &Model, b: &[St], tx: i64) -> (Vec<TermWithTempIds>, InternSet<em::TempId>) {
    use mentat_db::internal_types::{KnownEntidOr, TypedValueOr};
    let mut set: InternSet<em::TempId> = InternSet::new();
    let mut out = vec![];
    for x in b {
        let e: KnownEntidOr<ValueRc<em::TempId>> = match &x.e {
            Ep::Id(i) => edn_either_left(KnownEntid(*i)),
            Ep::Temp(t) => edn_either_right(set.intern(em::TempId::External(t.clone()))),
            Ep::Tx => edn_either_left(KnownEntid(tx)),
            _ => unreachable!(),
        };
        let v: TypedValueOr<ValueRc<em::TempId>> = match &x.v {
            Vp::Val(v) => edn_either_left(v.typed()),
            Vp::Temp(t) => edn_either_right(set.intern(em::TempId::External(t.clone()))),
            Vp::Tx => edn_either_left(TypedValue::Ref(tx)),
            _ => unreachable!(),
        };
        out.push(Term::AddOrRetract(if x.add { em::OpType::Add } else { em::OpType::Retract }, e, m.idents[&x.a], v));
    }
    (out, set)
}

fn edn_either_left<L, R>(l: L) -> mentat_core::util::Either<L, R> {
    mentat_core::util::Either::Left(l)
}
fn edn_either_right<L, R>(r: R) -> mentat_core::util::Either<L, R> {
    mentat_core::util::Either::Right(r)
}

/// Hand the rewriting over in one of several ways; gives back the in-progress transaction.
fn submit<'a, 'c>(mut ip: InProgress<'a, 'c>, w_m: &Model, how: u64, t: &[Ent], b: &[St], alt: bool, tx: i64) -> Result<(InProgress<'a, 'c>, Result<TxReport, String>), String> {
    let p = Prog { m: w_m, alt };
    Ok(match how {
        0 => {
            let r = ip.transact(tx_edn(t).as_str()).map_err(es);
            (ip, r)
        }
        1 => {
            let ents = edn::parse::entities(&tx_edn(t)).map_err(|e| format!("text of a transaction does not parse: {}\n{}", e, tx_edn(t)))?;
            let r = ip.transact_entities(ents).map_err(es);
            (ip, r)
        }
        2 => {
            let ents: Vec<em::Entity<TypedValue>> = t.iter().map(|e| p.entity(e)).collect();
            let r = ip.transact_entities(ents).map_err(es);
            (ip, r)
        }
        3 => {
            let mut tb = TermBuilder::new();
            p.feed(&mut tb, t)?;
            let r = ip.transact_builder(tb).map_err(es);
            (ip, r)
        }
        4 => {
            let mut ib = ip.builder();
            p.feed(&mut ib, t)?;
            let (ip, r) = ib.transact();
            (ip, r.map_err(es))
        }
        5 => {
            // One entity builder after another.
            let mut ib = ip.builder();
            for e in t {
                if let Ent::List(add, e, a, v) = e {
                    let mut eb = match e {
                        Ep::Temp(t) => ib.describe_tempid(t),
                        e => ib.describe(e_place(e)),
                    };
                    let r = if *add { eb.add(attr_place(a), p.value(a, v)) } else { eb.retract(attr_place(a), p.value(a, v)) };
                    r.map_err(es)?;
                    ib = eb.finish().0;
                }
            }
            let (ip, r) = ib.transact();
            (ip, r.map_err(es))
        }
        _ => {
            let (ts, set) = terms(w_m, b, tx);
            let r = ip.transact_terms(ts, set).map_err(es);
            (ip, r)
        }
    })
}

const HOW: [&str; 7] = ["as text", "as parsed entities", "as programmatic entities", "through a TermBuilder", "through the in-progress builder", "through entity builders", "as terms"];

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = World::mem()?;
    let defs = schema(s);
    w.install(&defs, ctx)?;
    // Named entities and data to refer to.
    let mut g = TxGen::new(&defs);
    g.bad = 0;
    g.max_ents = 8;
    let mut t: Vec<Ent> = [":e/one", ":e/two"].iter().enumerate().map(|(i, k)| Ent::add(Ep::Temp(format!("e{}", i)), ":db/ident", Vp::Val(V::kw(k)))).collect();
    t.push(Ent::add(Ep::Temp("e0".into()), ":t/i", Vp::Val(V::Long(77))));
    t.extend(g.tx(s, &w.m));
    let t = reduce(t, &w.m);
    w.transact_noted(&t, ctx)?;
    let mut nontrivial = false;
    let n = s.size(2, if tier.thorough { 8 } else { 4 });
    for _ in 0..n {
        let mut b = base(s, &w.m, &defs);
        if s.chance(5, 6) {
            while !b.is_empty() && w.m.plan(&plain(&b)).is_err() {
                match (0..b.len()).find(|i| {
                    let mut c = b.clone();
                    c.remove(*i);
                    w.m.plan(&plain(&c)).is_ok()
                }) {
                    Some(i) => {
                        b.remove(i);
                    }
                    None => {
                        b.pop();
                    }
                }
            }
        }
        let plan = w.m.plan(&plain(&b));
        ctx.note(format!("plain {}", tx_edn(&plain(&b))));
        let k = s.size(2, if tier.thorough { 10 } else { 5 });
        for _ in 0..k {
            let how = s.below(7);
            let alt = s.bool();
            let mut u = Used::default();
            let t = if how == 6 { plain(&b) } else { rewrite(s, &w.m, &defs, &b, how <= 2, &mut u) };
            let t = if how >= 3 { split(s, &w.m, &t, true) } else { t };
            if how >= 3 && t.iter().any(|e| if let Ent::Map(..) = e { true } else { false }) {
                continue;
            }
            ctx.note(format!("  {} {}", HOW[how as usize], tx_edn(&t)));
            if alt {
                ctx.note("  (alternative value places)");
            }
            let ip = w.store.begin_transaction().map_err(es)?;
            let (ip, real) = submit(ip, &w.m, how, &t, &b, alt, w.m.next_tx)?;
            match (&plan, real) {
                (Ok(ef), Ok(rep)) => {
                    let facts = db::read_facts(&ip.transaction)?;
                    let mut ef = ef.clone();
                    let named: BTreeSet<String> = temps(&t);
                    for x in &u.anon {
                        check!(!named.contains(x), "harness: tempid {:?} is not anonymous", x);
                        if let Some(id) = ef.tempids.remove(x) {
                            if ef.fresh.contains(&id) && !ef.tempids.values().any(|y| *y == id) && !ef.fresh_anon.contains(&id) {
                                ef.fresh_anon.push(id);
                            }
                        }
                    }
                    let mut m = w.m.clone();
                    reconcile(&mut m, ef, &rep.tempids, rep.tx_id, micros(&rep.tx_instant), &facts)
                        .map_err(|e| format!("{}, the transaction has another effect than its plain list: {}\n{}", HOW[how as usize], e, tx_edn(&t)))?;
                    ctx.label(HOW[how as usize]);
                    for x in &u.set {
                        ctx.label(x);
                    }
                    nontrivial |= b.len() >= 2 && u.set.len() >= 2;
                }
                (Err(_), Err(_)) => ctx.label("refused like the plain list"),
                (Ok(_), Err(e)) => return Err(format!("{}, the transaction is refused ('{}') although its plain list is acceptable:\n{}", HOW[how as usize], e, tx_edn(&t))),
                (Err(why), Ok(_)) => return Err(format!("{}, the transaction is accepted although its plain list is not ({}):\n{}", HOW[how as usize], why, tx_edn(&t))),
            }
        }
        w.transact_noted(&plain(&b), ctx)?;
    }
    ctx.nontrivial = nontrivial;
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn retract_rev(ctx: &mut Ctx) -> CaseResult {
        let mut w = World::mem()?;
        w.install(&[def(":t/r", Vt::Ref, false, None)], ctx)?;
        let ef = w.transact_noted(&[Ent::add(Ep::Temp("x".into()), ":t/r", Vp::Temp("y".into())), Ent::add(Ep::Temp("y".into()), ":db/doc", Vp::Val(V::s("y")))], ctx)?.unwrap();
        let (x, y) = (ef.tempids["x"], ef.tempids["y"]);
        w.transact_noted(&[Ent::List(false, Ep::Id(y), ARef::rev(":t/r"), Vp::Val(V::Ref(x)))], ctx)?;
        Ok(())
    }
    fn rev_unallocated(ctx: &mut Ctx) -> CaseResult {
        let mut w = World::mem()?;
        w.install(&[def(":t/r", Vt::Ref, false, None)], ctx)?;
        w.transact_noted(&[Ent::List(true, Ep::Temp("x".into()), ARef::rev(":t/r"), Vp::Val(V::Ref(70000)))], ctx)?;
        w.transact_noted(&[Ent::Map(Some(Ep::Temp("x".into())), vec![(ARef::rev(":t/r"), Vp::Val(V::Ref(70000)))])], ctx)?;
        Ok(())
    }
    vec![
        ("reversed retraction", retract_rev as fn(&mut Ctx) -> CaseResult),
        ("reversed reference to a never-allocated entity", rev_unallocated as fn(&mut Ctx) -> CaseResult),
    ]
}
