//! P22: vocabularies are installed, upgraded, refused and read back as declared.

use crate::check;
use crate::db;
use crate::engine::*;
use crate::fail;
use crate::gen::*;
use crate::model::*;
use crate::obs::*;
use crate::p02::reopen;
use crate::vals::*;
use crate::world::*;
use mentat::errors::MentatError;
use mentat::vocabulary::*;
use mentat::{InProgress, Keyword};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "P22",
    rule: "Histories of transactions (data, and attributes installed, altered, renamed and removed), vocabulary definitions ensured one at a time or several through a VocabularySource, checks, direct changes of stored vocabularies (other versions, ones that are no versions, attributes taken out) and reopening. Definitions are new ones or variations of earlier ones: other versions (lower, higher, 0, the largest), attributes added, left out, altered, shared with other vocabularies or already in the store in the same or another form; pre and post functions (of definitions and of the source) transact, are refused, fail, or ignore a refusal. A model over the stored facts says how each definition relates to the store and plans what ensuring it must transact. Compared: outcomes and kinds of errors, all facts up to the numbering of new entities, calls of pre and post (which, when, with what), the schema, read_vocabularies, read_vocabulary_named and check_vocabulary of every definition, each inside the open transaction, after commit or rollback, and after reopening; a second ensure must change nothing. Non-trivial: a vocabulary was installed and something was refused, upgraded or completed.",
    quick_cases: 4000,
    thorough_cases: 60000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &[
        "definitions ensured together have different names and agree about attributes they share",
        "after an error inside pre, post or a transaction the caller drops the open transaction, as the documentation has it (the entire operation fails)",
    ],
};

const VERSION: i64 = 38;
const ATTRIBUTE: i64 = 39;

#[derive(Clone, Debug, Default)]
struct Script {
    ents: Vec<Ent>,
    /// Go on although the transaction is refused.
    ignore: bool,
    fail: bool,
}

#[derive(Clone, Debug)]
struct VDef {
    name: String,
    version: u32,
    attrs: Vec<AttrDef>,
}

#[derive(Clone, Debug, PartialEq)]
enum Rel {
    NotPresent,
    Present,
    Older,
    TooNew,
    Missing(BTreeSet<String>),
    Conflict,
    BadStored,
}

fn kw(s: &str) -> Keyword {
    let s = &s[1..];
    match s.find('/') {
        Some(i) => Keyword::namespaced(&s[..i], &s[i + 1..]),
        None => Keyword::plain(s),
    }
}

fn attribute(a: &Attr) -> mentat::Attribute {
    mentat::Attribute {
        value_type: a.vt.mentat(),
        multival: a.many,
        unique: a.unique.map(|u| match u {
            Uniq::Identity => core_traits::attribute::Unique::Identity,
            Uniq::Value => core_traits::attribute::Unique::Value,
        }),
        index: a.index,
        fulltext: a.fulltext,
        component: a.component,
        no_history: a.nohist,
    }
}

fn definition(d: &VDef) -> Definition {
    Definition {
        name: kw(&d.name),
        version: d.version,
        attributes: d.attrs.iter().map(|a| (kw(&a.ident), attribute(&a.attr))).collect(),
        pre: on_pre,
        post: on_post,
    }
}

/// A stored vocabulary: its entity, version, attributes.
type Stored = (i64, i64, BTreeMap<i64, Attr>);

fn stored(m: &Model, name: &str) -> Option<Stored> {
    let e = *m.idents.get(name)?;
    let version = match m.values(e, VERSION).first() {
        Some(V::Long(x)) => *x,
        _ => return None,
    };
    let attrs = m.values(e, ATTRIBUTE).into_iter().filter_map(|v| if let V::Ref(a) = v { m.schema.get(&a).map(|at| (a, at.clone())) } else { None }).collect();
    Some((e, version, attrs))
}

fn ok_version(v: i64) -> bool {
    v > 0 && v <= u32::max_value() as i64
}

fn rel(m: &Model, d: &VDef) -> Rel {
    let (_, version, attrs) = match stored(m, &d.name) {
        None => return Rel::NotPresent,
        Some(x) => x,
    };
    if !ok_version(version) {
        return Rel::BadStored;
    }
    if version < d.version as i64 {
        return Rel::Older;
    }
    if version > d.version as i64 {
        return Rel::TooNew;
    }
    let mut missing = BTreeSet::new();
    for a in &d.attrs {
        match m.idents.get(&a.ident).and_then(|e| attrs.get(e)) {
            Some(at) if *at == a.attr => {}
            Some(_) => return Rel::Conflict,
            None => {
                missing.insert(a.ident.clone());
            }
        }
    }
    if missing.is_empty() {
        Rel::Present
    } else {
        Rel::Missing(missing)
    }
}

fn show(v: &Vocabulary) -> String {
    let a: BTreeMap<i64, String> = v.attributes().iter().map(|(e, a)| (*e, format!("{:?}", a))).collect();
    format!("{} v{} {:?} ({})", v.entity, v.version, a, v.attributes().len())
}

fn show_stored(v: &Stored) -> String {
    let a: BTreeMap<i64, String> = v.2.iter().map(|(e, a)| (*e, format!("{:?}", attribute(a)))).collect();
    format!("{} v{} {:?} ({})", v.0, v.1, a, v.2.len())
}

/// What ensuring a definition adds to the facts, the attributes of `which` only.
fn description(m: &Model, d: &VDef, which: &[&AttrDef]) -> Vec<Ent> {
    let t = |s: &str| Ep::Temp(s.to_string());
    let mut out = vec![
        Ent::add(t("vocabulary"), ":db.schema/version", Vp::Val(V::Long(d.version as i64))),
        Ent::add(t("vocabulary"), ":db/ident", Vp::Val(V::kw(&d.name))),
    ];
    for a in which {
        let id = a.ident.as_str();
        out.push(Ent::add(t(id), ":db/ident", Vp::Val(V::kw(id))));
        out.push(Ent::add(t("vocabulary"), ":db.schema/attribute", Vp::Temp(id.to_string())));
        out.push(Ent::add(t(id), ":db/valueType", Vp::Val(V::kw(a.attr.vt.ident()))));
        out.push(Ent::add(t(id), ":db/cardinality", Vp::Val(V::kw(if a.attr.many { ":db.cardinality/many" } else { ":db.cardinality/one" }))));
        for (k, b) in &[(":db/index", a.attr.index), (":db/isComponent", a.attr.component), (":db/noHistory", a.attr.nohist)] {
            out.push(Ent::add(t(id), k, Vp::Val(V::Bool(*b))));
        }
        // What is so already needs no saying, and fulltext can't be altered.
        if m.idents.get(id).and_then(|e| m.schema.get(e)).map_or(true, |at| at.fulltext != a.attr.fulltext) {
            out.push(Ent::add(t(id), ":db/fulltext", Vp::Val(V::Bool(a.attr.fulltext))));
        }
        let u = |u: Uniq| Vp::Val(V::kw(if u == Uniq::Identity { ":db.unique/identity" } else { ":db.unique/value" }));
        match a.attr.unique {
            Some(x) => out.push(Ent::add(t(id), ":db/unique", u(x))),
            None => {
                if let Some(x) = m.idents.get(id).and_then(|e| m.schema.get(e)).and_then(|at| at.unique) {
                    out.push(Ent::retract(t(id), ":db/unique", u(x)));
                }
            }
        }
    }
    out
}

struct Job {
    d: VDef,
    rel: Rel,
    before: Option<Stored>,
    applied: bool,
    pre: Script,
    post: Script,
    calls: Vec<&'static str>,
}

impl Job {
    fn which(&self) -> Vec<&AttrDef> {
        match self.rel {
            Rel::Missing(ref x) => self.d.attrs.iter().filter(|a| x.contains(&a.ident)).collect(),
            _ => self.d.attrs.iter().collect(),
        }
    }
    fn ents(&self, m: &Model) -> Vec<Ent> {
        description(m, &self.d, &self.which())
    }
}

/// What goes on during an ensure.
struct Hook {
    m: Model,
    ctx: Ctx,
    jobs: Vec<Job>,
    /// A pre or post function failed.
    failed: bool,
    bad: Option<String>,
    source_calls: Vec<&'static str>,
}

thread_local! {
    static HOOK: RefCell<Option<Hook>> = RefCell::new(None);
}

const FAILURE: &str = "a pre or post function of the harness";

impl Hook {
    /// Bring the model up to what has been done to the definitions since.
    fn absorb(&mut self, ip: &InProgress) -> CaseResult {
        let mut got = read_model(&ip.transaction)?;
        let mut m2 = self.m.clone();
        for j in self.jobs.iter_mut().filter(|j| !j.applied) {
            let now = match stored(&got, &j.d.name) {
                Some(x) if x.1 == j.d.version as i64 => x,
                _ => continue,
            };
            if let Rel::Missing(ref names) = j.rel {
                if !names.iter().any(|n| got.idents.get(n).map_or(false, |e| now.2.contains_key(e))) {
                    continue;
                }
            }
            j.applied = true;
            let ef = match m2.plan(&j.ents(&m2)) {
                Ok(ef) => ef,
                Err(e) => fail!("{} was put into effect although {}", j.d.name, e),
            };
            m2.apply(&ef, 0);
        }
        let first = self.m.next_user;
        let mut map: BTreeMap<i64, i64> = BTreeMap::new();
        for (k, e) in &m2.idents {
            let r = match got.idents.get(k) {
                Some(r) => *r,
                None => fail!("there is no {} after ensuring", k),
            };
            if *e < first || *e >= TX0 {
                check!(r == *e, "{} names {} after ensuring, not {}", k, r, e);
            } else {
                check!(r >= first && r < TX0, "the new {} has the id {}, new ones start at {}", k, r, first);
                if let Some(o) = map.insert(*e, r) {
                    check!(o == r, "{} names {} after ensuring, not {}", k, r, o);
                }
            }
        }
        let old = self.m.next_tx;
        let ren = |e: &i64| *map.get(e).unwrap_or(e);
        let set = |m: &Model, f: &dyn Fn(&i64) -> i64| -> BTreeSet<(i64, i64, V)> {
            m.facts
                .keys()
                .filter(|(e, _, _)| *e < old)
                .map(|(e, a, v)| {
                    let v = if let V::Ref(r) = v { V::Ref(f(r)) } else { v.clone() };
                    (f(e), f(a), v)
                })
                .collect()
        };
        let (w, g) = (set(&m2, &ren), set(&got, &|e| *e));
        if let Some(d) = db::diff_sets(&w, &g) {
            fail!("the facts after ensuring: {}", d);
        }
        for (tx, ds) in &self.m.log {
            check!(got.log.get(tx) == Some(ds), "the logged transaction {} changed", tx);
        }
        got.next_user = map.values().max().map_or(first, |x| x + 1);
        got.next_max = got.next_user;
        got.next_tx = got.log.keys().max().map_or(old, |x| x + 1);
        self.m = got;
        check_schema(&ip.schema, &self.m)
    }

    fn script(&mut self, ip: &mut InProgress, sc: &Script) -> Result<bool, String> {
        let mut ok = true;
        if !sc.ents.is_empty() {
            ok = transact_ip(ip, &mut self.m, &sc.ents, &mut self.ctx)?.is_some();
            if !ok && sc.ignore {
                self.ctx.label("a refusal in pre or post ignored");
                ok = true;
            }
        }
        Ok(ok && !sc.fail)
    }

    fn called(&mut self, ip: &mut InProgress, what: &'static str, from: &Vocabulary) -> Result<bool, String> {
        check!(!self.failed, "{} is called after a failure", what);
        self.absorb(ip)?;
        let m = &self.m;
        let j = match self.jobs.iter_mut().find(|j| j.before.as_ref().map(|b| b.0) == Some(from.entity)) {
            Some(j) => j,
            None => fail!("{} is called for {}, which is not to be upgraded", what, show(from)),
        };
        self.ctx.note(format!("  {} of {} from version {}", what, j.d.name, from.version));
        check!(j.rel == Rel::Older, "{} of {} is called although it is {:?}", what, j.d.name, j.rel);
        check!(show(from) == show_stored(j.before.as_ref().unwrap()), "{} of {} is told it upgrades from {}, not {}", what, j.d.name, show(from), show_stored(j.before.as_ref().unwrap()));
        j.calls.push(what);
        let sc = if what == "pre" {
            check!(!j.applied && j.calls == ["pre"], "pre of {} is called late or again: {:?}", j.d.name, j.calls);
            j.pre.clone()
        } else {
            check!(j.applied && j.calls == ["pre", "post"], "post of {} is called early, again or without pre: {:?}", j.d.name, j.calls);
            check!(stored(m, &j.d.name).map_or(false, |x| x.1 == j.d.version as i64), "post of {} is called before the upgrade", j.d.name);
            j.post.clone()
        };
        self.script(ip, &sc)
    }
}

fn hooked(ip: &mut InProgress, f: &mut dyn FnMut(&mut Hook, &mut InProgress) -> Result<bool, String>) -> mentat::errors::Result<()> {
    let mut h = HOOK.with(|h| h.borrow_mut().take()).expect("a hook");
    let r = match h.bad {
        Some(_) => Ok(false),
        None => f(&mut h, ip),
    };
    let ok = match r {
        Ok(ok) => ok,
        Err(e) => {
            h.bad = Some(e);
            false
        }
    };
    h.failed |= !ok;
    HOOK.with(|x| *x.borrow_mut() = Some(h));
    if ok {
        Ok(())
    } else {
        Err(MentatError::PathAlreadyExists(FAILURE.into()))
    }
}

fn on_pre(ip: &mut InProgress, from: &Vocabulary) -> mentat::errors::Result<()> {
    hooked(ip, &mut |h, ip| h.called(ip, "pre", from))
}

fn on_post(ip: &mut InProgress, from: &Vocabulary) -> mentat::errors::Result<()> {
    hooked(ip, &mut |h, ip| h.called(ip, "post", from))
}

struct Source {
    defs: Vec<VDef>,
    pre: Script,
    post: Script,
}

impl VocabularySource for Source {
    fn definitions(&mut self) -> Vec<Definition> {
        self.defs.iter().map(definition).collect()
    }
    fn pre(&mut self, ip: &mut InProgress, status: &dyn VocabularyStatus) -> mentat::errors::Result<()> {
        let (defs, sc) = (&self.defs, &self.pre);
        hooked(ip, &mut |h, ip| {
            h.ctx.note("  pre of the source");
            h.source_calls.push("pre");
            check!(h.source_calls == ["pre"], "pre of the source is called again: {:?}", h.source_calls);
            h.absorb(ip)?;
            check!(!h.jobs.iter().any(|j| j.applied), "pre of the source is called late");
            for d in defs {
                let j = h.jobs.iter().find(|j| j.d.name == d.name);
                match (j, status.get(&kw(&d.name))) {
                    (None, None) => {}
                    (Some(j), Some((sd, c))) => {
                        check!(sd.name == kw(&d.name) && sd.version == d.version, "the status of {} is about {} version {}", d.name, sd.name, sd.version);
                        same_check(&h.m, &j.d, &j.rel, Ok(c))?;
                    }
                    (j, _) => fail!("the status of {} tells of {} work", d.name, if j.is_some() { "no" } else { "some" }),
                }
            }
            h.script(ip, sc)
        })
    }
    fn post(&mut self, ip: &mut InProgress) -> mentat::errors::Result<()> {
        let sc = &self.post;
        hooked(ip, &mut |h, ip| {
            h.ctx.note("  post of the source");
            h.source_calls.push("post");
            check!(h.source_calls == ["pre", "post"], "post of the source is called again or without pre: {:?}", h.source_calls);
            check!(!h.failed, "post is called after a failure");
            h.absorb(ip)?;
            for j in &h.jobs {
                check!(j.applied, "post of the source is called before {} is in effect", j.d.name);
            }
            h.script(ip, sc)
        })
    }
}

fn same_check(m: &Model, d: &VDef, want: &Rel, got: Result<&VocabularyCheck, &MentatError>) -> CaseResult {
    let st = stored(m, &d.name);
    let ok = match (want, got) {
        (Rel::NotPresent, Ok(VocabularyCheck::NotPresent)) => true,
        (Rel::Present, Ok(VocabularyCheck::Present)) => true,
        (Rel::Older, Ok(VocabularyCheck::PresentButNeedsUpdate { older_version: v })) | (Rel::TooNew, Ok(VocabularyCheck::PresentButTooNew { newer_version: v })) => {
            let w = show_stored(st.as_ref().unwrap());
            check!(show(v) == w, "checking {} shows {} in the store, which has {}", d.name, show(v), w);
            true
        }
        (Rel::Missing(w), Ok(VocabularyCheck::PresentButMissingAttributes { attributes })) => {
            let g: BTreeSet<String> = attributes.iter().map(|a| a.0.to_string()).collect();
            for a in attributes {
                let x = d.attrs.iter().find(|x| x.ident == a.0.to_string());
                check!(x.map(|x| attribute(&x.attr)) == Some(a.1.clone()), "checking {} misses {:?}, which it does not declare", d.name, a);
            }
            *w == g
        }
        (Rel::Conflict, Err(MentatError::ConflictingAttributeDefinitions(n, v, a, have, want))) => {
            let x = d.attrs.iter().find(|x| x.ident == *a);
            check!(*n == d.name && *v == d.version && x.map(|x| attribute(&x.attr)) == Some(want.clone()) && have != want, "a conflict of {} is reported as {:?}", d.name, got);
            let e = m.idents.get(a);
            check!(e.and_then(|e| st.as_ref().unwrap().2.get(e)).map(attribute) == Some(have.clone()), "a conflict of {} is reported as {:?}", d.name, got);
            true
        }
        (Rel::BadStored, Err(MentatError::InvalidVocabularyVersion)) => true,
        _ => false,
    };
    check!(ok, "{} version {} is {:?}; checking it says {:?}", d.name, d.version, want, got);
    Ok(())
}

/// What can be read of the vocabularies.
fn read<T: HasVocabularies>(q: &T, m: &Model, pool: &[VDef], what: &str) -> CaseResult {
    let at = |e: String| format!("{}: {}", what, e);
    let want: BTreeMap<String, Stored> = m.idents.keys().filter_map(|k| stored(m, k).filter(|v| ok_version(v.1)).map(|v| (k.clone(), v))).collect();
    let got = q.read_vocabularies().map_err(|e| at(format!("read_vocabularies fails: {}", e)))?;
    let g: BTreeSet<String> = got.iter().map(|(k, v)| format!("{} {}", k, show(v))).collect();
    let w: BTreeSet<String> = want.iter().map(|(k, v)| format!("{} {}", k, show_stored(v))).collect();
    if let Some(d) = db::diff_sets(&w, &g) {
        return Err(at(format!("read_vocabularies: {}", d)));
    }
    let mut names: BTreeSet<String> = pool.iter().map(|d| d.name.clone()).collect();
    names.insert(":db.schema/core".into());
    names.insert(":no/such".into());
    for n in &names {
        let got = q.read_vocabulary_named(&kw(n));
        let ok = match (stored(m, n), &got) {
            (None, Ok(None)) => true,
            (Some(s), Ok(Some(v))) => show(v) == show_stored(&s),
            (Some(s), Err(MentatError::InvalidVocabularyVersion)) => !ok_version(s.1),
            _ => false,
        };
        check!(ok, "{}: reading {} gives {:?}; stored is {:?}", what, n, got, stored(m, n));
    }
    Ok(())
}

fn observe<T: VersionedStore>(q: &T, m: &Model, pool: &[VDef], what: &str) -> CaseResult {
    read(q, m, pool, what)?;
    let at = |e: String| format!("{}: {}", what, e);
    let core = stored(m, ":db.schema/core").map_or(0, |s| s.1);
    check!(q.verify_core_schema().is_ok() == (core == 1), "{}: verifying the core schema, version {}, says {:?}", what, core, q.verify_core_schema());
    for d in pool.iter().filter(|d| d.version > 0) {
        let def = definition(d);
        let got = q.check_vocabulary(&def);
        same_check(m, d, &rel(m, d), got.as_ref()).map_err(at)?;
    }
    Ok(())
}

fn gen_def(s: &mut Src, m: &Model, pool: &[VDef]) -> VDef {
    let names = [":v/one", ":v/two", ":org.v/three", ":v/one", ":t/a3", ":db.schema/core"];
    let mut d = if !pool.is_empty() && s.chance(4, 5) {
        s.pick(pool).clone()
    } else {
        let n = s.weighted(&[6, 6, 6, 6, 1, 1]);
        let version = if s.chance(1, 20) { *s.pick(&[0, u32::max_value(), u32::max_value() - 1]) } else { 1 + s.below(3) as u32 };
        VDef { name: names[n].into(), version, attrs: vec![] }
    };
    let mut n = s.size(0, 3);
    if d.attrs.is_empty() {
        n += 1;
    }
    for _ in 0..n {
        let known = defs_of(m);
        match s.weighted(&[4, 3, 3, 3, 2, 1]) {
            0 => {
                let vt = *s.pick(&ALL_VT);
                let mut attr = gen_attr(s, vt);
                attr.nohist = s.chance(1, 10);
                if s.chance(1, 20) {
                    // Perhaps not one at all.
                    attr.fulltext = s.bool();
                    attr.component = s.bool();
                    attr.index = s.bool();
                }
                let ident = s.pick(&ATTR_NAMES[..]).to_string();
                d.attrs.retain(|a| a.ident != ident);
                d.attrs.push(AttrDef { ident, attr });
            }
            1 if !known.is_empty() => {
                let a = s.pick(&known).clone();
                d.attrs.retain(|x| x.ident != a.ident);
                d.attrs.push(a);
            }
            2 => d.version = d.version.saturating_add(1),
            3 if !d.attrs.is_empty() => {
                let i = s.idx(d.attrs.len());
                let a = &mut d.attrs[i].attr;
                match s.weighted(&[3, 3, 2, 1, 1, 1]) {
                    0 => a.many = !a.many,
                    1 => {
                        a.unique = match a.unique {
                            None if s.bool() => Some(Uniq::Value),
                            None => Some(Uniq::Identity),
                            Some(_) if s.chance(3, 4) => None,
                            Some(Uniq::Value) => Some(Uniq::Identity),
                            Some(Uniq::Identity) => Some(Uniq::Value),
                        };
                        if a.unique.is_some() {
                            a.index = true;
                        }
                    }
                    2 => a.index = a.unique.is_some() || a.fulltext || !a.index,
                    3 => a.nohist = !a.nohist,
                    4 => a.component = a.vt == Vt::Ref && !a.component,
                    _ => a.vt = *s.pick(&ALL_VT),
                }
            }
            4 if !d.attrs.is_empty() => {
                let i = s.idx(d.attrs.len());
                d.attrs.remove(i);
            }
            5 => d.version = d.version.saturating_sub(1),
            _ => {}
        }
    }
    d
}

fn gen_script(s: &mut Src, m: &Model, d: Option<&VDef>) -> Script {
    let mut sc = Script::default();
    if s.chance(1, 2) {
        return sc;
    }
    match s.below(3) {
        // Retract what stands in the way.
        0 if d.is_some() => {
            for a in &d.unwrap().attrs {
                let e = match m.idents.get(&a.ident) {
                    Some(e) => *e,
                    None => continue,
                };
                let mut seen_e = BTreeSet::new();
                let mut seen_v = BTreeSet::new();
                for (x, _, v) in m.facts.keys().filter(|k| k.1 == e) {
                    let dup = !seen_e.insert(*x) && !a.attr.many || !seen_v.insert(v.clone()) && a.attr.unique.is_some();
                    if dup {
                        sc.ents.push(Ent::List(false, Ep::Id(*x), ARef { name: AName::Id(e), rev: false }, Vp::Val(v.clone())));
                    }
                }
            }
        }
        1 => sc.ents = evolving_tx(s, m, 0, true),
        _ => sc.ents = evolving_tx(s, m, 10, false),
    }
    // Not the vocabularies themselves.
    let ids = [VERSION.to_string(), ATTRIBUTE.to_string()];
    sc.ents.retain(|e| {
        let t = e.edn();
        !t.contains(":db.schema/") && !t.split(|c: char| !c.is_alphanumeric()).any(|w| ids.iter().any(|i| i == w))
    });
    sc.ignore = s.bool();
    sc.fail = s.chance(1, 10);
    sc
}

fn job(s: &mut Src, m: &Model, d: &VDef, r: Rel) -> Job {
    let pre = gen_script(s, m, Some(d));
    let post = gen_script(s, m, None);
    Job { d: d.clone(), before: stored(m, &d.name), rel: r, applied: false, pre, post, calls: vec![] }
}

fn show_def(d: &VDef) -> String {
    format!("{} version {} [{}]", d.name, d.version, d.attrs.iter().map(|a| format!("{}{}", summarize(&[a.clone()]), if a.attr.nohist { " nohist" } else { "" })).collect::<Vec<_>>().join("; "))
}

/// Ensure `defs` (through a source if `many`) in an open transaction. Some(m): done. None: refused.
fn ensure(ip: &mut InProgress, m: &Model, defs: &[VDef], many: bool, s: &mut Src, ctx: &mut Ctx) -> Result<Option<Model>, String> {
    for d in defs {
        ctx.note(format!("ensure {}{}", show_def(d), if many { " (source)" } else { "" }));
    }
    let rels: Vec<Rel> = defs.iter().map(|d| rel(m, d)).collect();
    let mut jobs = vec![];
    for (d, r) in defs.iter().zip(&rels) {
        if *r != Rel::Present {
            jobs.push(job(s, m, d, r.clone()));
        }
    }
    let bad = defs.iter().any(|d| d.version == 0) || rels.iter().any(|r| [Rel::BadStored, Rel::Conflict, Rel::TooNew].contains(r));
    let before = db::dump(&ip.transaction)?;
    let mut src = Source { defs: defs.to_vec(), pre: Script::default(), post: Script::default() };
    if many {
        src.pre = gen_script(s, m, None);
        src.post = gen_script(s, m, None);
    }
    let nothing = jobs.is_empty();
    let hook = Hook { m: m.clone(), ctx: std::mem::take(ctx), jobs, failed: false, bad: None, source_calls: vec![] };
    HOOK.with(|h| *h.borrow_mut() = Some(hook));
    let r: Result<BTreeMap<String, VocabularyOutcome>, MentatError> = if many {
        ip.ensure_vocabularies(&mut src).map(|m| m.into_iter().map(|(k, o)| (k.to_string(), o)).collect())
    } else {
        ip.ensure_vocabulary(&definition(&defs[0])).map(|o| Some((defs[0].name.clone(), o)).into_iter().collect())
    };
    let mut h = HOOK.with(|h| h.borrow_mut().take()).expect("the hook");
    *ctx = std::mem::take(&mut h.ctx);
    ctx.note(format!("  => {:?}", r.as_ref().map_err(|e| clip_line(&es(e)))));
    if let Some(e) = h.bad {
        return Err(e);
    }
    if bad {
        let e = match r {
            Ok(r) => fail!("definitions that are {:?} are ensured: {:?}", rels, r),
            Err(e) => e,
        };
        let after = db::dump(&ip.transaction)?;
        if let Some(d) = db::diff_dump(&before, &after) {
            fail!("refusing definitions changed the store: {}", d);
        }
        check!(h.source_calls.is_empty() && h.jobs.iter().all(|j| j.calls.is_empty()), "pre or post functions of refused definitions ran");
        let kind = match e {
            MentatError::InvalidVocabularyVersion => rels.contains(&Rel::BadStored) || defs.iter().any(|d| d.version == 0),
            MentatError::ConflictingAttributeDefinitions(ref n, ..) => defs.iter().zip(&rels).any(|(d, r)| d.name == *n && *r == Rel::Conflict),
            MentatError::ExistingVocabularyTooNew(ref n, have, want) => {
                defs.iter().zip(&rels).any(|(d, r)| d.name == *n && *r == Rel::TooNew && d.version == want && stored(m, n).map(|x| x.1) == Some(have as i64))
            }
            _ => false,
        };
        check!(kind, "definitions that are {:?} are refused with: {}", rels, e);
        check_schema(&ip.schema, m)?;
        ctx.label("refused as a whole");
        for r in &rels {
            match r {
                Rel::Conflict => ctx.label("conflict"),
                Rel::TooNew => ctx.label("too new"),
                _ => {}
            }
        }
        return Ok(None);
    }
    let done = match r {
        Err(e) => {
            if h.failed {
                check!(es(&e).contains(FAILURE), "a failing pre or post function is reported as: {}", e);
                ctx.label("pre or post failed");
                return Ok(None);
            }
            h.absorb(ip)?;
            let why = h.jobs.iter().filter(|j| !j.applied).filter_map(|j| h.m.plan(&j.ents(&h.m)).err()).next();
            check!(why.is_some(), "ensuring fails: {}", e);
            ctx.note(format!("  (model: {})", why.unwrap()));
            ctx.label("description refused");
            return Ok(None);
        }
        Ok(x) => x,
    };
    check!(!h.failed, "a failure of pre or post went unreported");
    h.absorb(ip)?;
    let names: BTreeSet<&String> = defs.iter().map(|d| &d.name).collect();
    check!(done.keys().collect::<BTreeSet<_>>() == names, "outcomes for {:?}, of {:?}", done.keys(), names);
    for (d, r) in defs.iter().zip(&rels) {
        let (want, label) = match r {
            Rel::NotPresent => (VocabularyOutcome::Installed, "installed"),
            Rel::Older => (VocabularyOutcome::Upgraded, "upgraded"),
            Rel::Missing(_) => (VocabularyOutcome::InstalledMissingAttributes, "completed"),
            _ => (VocabularyOutcome::Existed, "existed"),
        };
        check!(done[&d.name] == want, "{} was {:?}, and ensuring it reports {:?}", d.name, r, done[&d.name]);
        ctx.label(label);
    }
    for j in &h.jobs {
        check!(j.applied, "{} is not in effect after ensuring", j.d.name);
        let want: &[&str] = if j.rel == Rel::Older { &["pre", "post"] } else { &[] };
        check!(j.calls == want, "{} was {:?}, and {:?} were called", j.d.name, j.rel, j.calls);
    }
    if many {
        let want: &[&str] = if nothing { &[] } else { &["pre", "post"] };
        check!(h.source_calls == want, "of the source, {:?} were called", h.source_calls);
    }
    if nothing {
        let after = db::dump(&ip.transaction)?;
        if let Some(d) = db::diff_dump(&before, &after) {
            fail!("ensuring what is present changed the store: {}", d);
        }
    }
    Ok(Some(h.m))
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let file = s.chance(1, 5);
    let dir = if file { Some(ctx.dir()) } else { None };
    let mut w = match dir {
        Some(ref d) => World::open_file(&d.join("s.db"))?,
        None => World::mem()?,
    };
    if s.chance(3, 4) {
        let mut defs = gen_schema(s, 2, 6);
        defs.retain(|_| true);
        w.install(&defs, ctx)?;
    }
    let mut pool: Vec<VDef> = vec![];
    let n = s.size(3, if tier.thorough { 16 } else { 10 });
    let (mut installed, mut other) = (false, false);
    for _ in 0..n {
        match s.weighted(&[4, 8, 3, 1, 1]) {
            0 => {
                let alter = *s.pick(&[0, 10, 40]);
                for _ in 0..s.size(1, 3) {
                    let t = evolving_tx(s, &w.m, alter, true);
                    if !t.is_empty() {
                        w.transact_noted(&t, ctx)?;
                    }
                }
            }
            k @ 1 | k @ 2 => {
                let mut defs: Vec<VDef> = vec![];
                for _ in 0..if k == 1 { 1 } else { s.size(0, 3) } {
                    let d = gen_def(s, &w.m, &pool);
                    let clash = |x: &VDef| x.name == d.name || x.attrs.iter().any(|a| d.attrs.iter().any(|b| a.ident == b.ident && a.attr != b.attr));
                    if !defs.iter().any(clash) {
                        defs.push(d);
                    }
                }
                let many = k == 2 || s.chance(1, 4);
                let m0 = w.m.clone();
                let mut ip = w.store.begin_transaction().map_err(es)?;
                let r = ensure(&mut ip, &m0, &defs, many, s, ctx)?;
                for d in &defs {
                    if !pool.iter().any(|x| show_def(x) == show_def(d)) {
                        pool.push(d.clone());
                    }
                }
                match r {
                    None => {
                        other = true;
                        if s.bool() {
                            drop(ip);
                        } else {
                            ip.rollback().map_err(es)?;
                        }
                    }
                    Some(mut m) => {
                        installed = true;
                        let rels: Vec<Rel> = defs.iter().map(|d| rel(&m0, d)).collect();
                        other |= rels.iter().any(|r| *r != Rel::NotPresent && *r != Rel::Present);
                        observe(&ip, &m, &pool, "in the open transaction")?;
                        let after: Vec<Rel> = defs.iter().map(|d| rel(&m, d)).collect();
                        if after.iter().all(|r| *r == Rel::Present) && s.chance(1, 2) {
                            // Once more: nothing happens.
                            let again = ensure(&mut ip, &m, &defs, many, s, ctx)?;
                            check!(again.is_some(), "what was just ensured is refused");
                        }
                        if s.chance(1, 4) {
                            let t = evolving_tx(s, &m, 20, false);
                            transact_ip(&mut ip, &mut m, &t, ctx)?;
                        }
                        if s.chance(1, 6) {
                            ctx.note("rollback");
                            ctx.label("rolled back");
                            drop(ip);
                        } else {
                            ip.commit().map_err(|e| format!("commit fails: {}", e))?;
                            w.m = m;
                        }
                    }
                }
            }
            3 => {
                // Change what is stored directly.
                let name = match s.pick_opt(&pool) {
                    Some(d) => d.name.clone(),
                    None => continue,
                };
                let e = Ep::Temp("v".into());
                let ident = Ent::add(e.clone(), ":db/ident", Vp::Val(V::kw(&name)));
                let linked: Vec<i64> = stored(&w.m, &name).map_or(vec![], |x| x.2.keys().cloned().collect());
                let t = match s.below(3) {
                    0 => vec![ident, Ent::add(e, ":db.schema/version", Vp::Val(V::Long(*s.pick(&[1, 2, 3, 0, -1, 1 << 32, (1 << 32) - 1, i64::max_value()]))))],
                    1 => match s.pick_opt(&linked) {
                        Some(a) => vec![Ent::retract(Ep::Ident(name.clone()), ":db.schema/attribute", Vp::Val(V::Ref(*a)))],
                        None => continue,
                    },
                    _ => match stored(&w.m, &name) {
                        Some(x) => vec![Ent::retract(Ep::Id(x.0), ":db.schema/version", Vp::Val(V::Long(x.1)))],
                        None => continue,
                    },
                };
                w.transact_noted(&t, ctx)?;
            }
            _ => {
                if file {
                    reopen(&mut w, &dir, ctx)?;
                }
            }
        }
        let facts = w.facts()?;
        if let Some(d) = db::diff_facts(&w.m.facts, &facts) {
            fail!("the store: {}", d);
        }
        check_schema(&w.store.conn().current_schema(), &w.m)?;
        let rd = w.store.begin_read().map_err(es)?;
        read(&rd, &w.m, &pool, "in a read")?;
        drop(rd);
        let ip = w.store.begin_transaction().map_err(es)?;
        observe(&ip, &w.m, &pool, "in a new transaction")?;
    }
    ctx.nontrivial = installed && other;
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    fn go(start: &[AttrDef], d: &VDef, ok: bool, ctx: &mut Ctx) -> CaseResult {
        let mut w = World::mem()?;
        if !start.is_empty() {
            w.install(start, ctx)?;
        }
        let s = &mut Src::replay(vec![]);
        let m0 = w.m.clone();
        let mut ip = w.store.begin_transaction().map_err(es)?;
        let r = ensure(&mut ip, &m0, &[d.clone()], false, s, ctx)?;
        check!(r.is_some() == ok, "ensuring {} {}", show_def(d), if ok { "is refused" } else { "works" });
        if let Some(m) = r {
            check!(rel(&m, d) == Rel::Present, "{} is {:?} after ensuring it", d.name, rel(&m, d));
            observe(&ip, &m, &[d.clone()], "after ensuring")?;
            check!(ensure(&mut ip, &m, &[d.clone()], false, s, ctx)?.is_some(), "ensuring again is refused");
        }
        Ok(())
    }
    fn a(unique: Option<Uniq>) -> AttrDef {
        let mut attr = Attr::new(Vt::Str);
        attr.unique = unique;
        attr.index = true;
        AttrDef { ident: ":t/a".into(), attr }
    }
    fn zero(ctx: &mut Ctx) -> CaseResult {
        go(&[], &VDef { name: ":v/one".into(), version: 0, attrs: vec![a(None)] }, false, ctx)
    }
    fn largest(ctx: &mut Ctx) -> CaseResult {
        go(&[], &VDef { name: ":v/one".into(), version: u32::max_value(), attrs: vec![a(None)] }, true, ctx)
    }
    fn plain(ctx: &mut Ctx) -> CaseResult {
        go(&[a(None)], &VDef { name: ":v/one".into(), version: 1, attrs: vec![a(None)] }, true, ctx)
    }
    fn no_longer_unique(ctx: &mut Ctx) -> CaseResult {
        go(&[a(Some(Uniq::Identity))], &VDef { name: ":v/one".into(), version: 1, attrs: vec![a(None)] }, true, ctx)
    }
    vec![
        ("version 0 is refused", zero),
        ("the largest version is read back", largest),
        ("an attribute that does not say it is not fulltext", plain),
        ("an attribute that was unique", no_longer_unique),
    ]
}
