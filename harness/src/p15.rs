//! P15: full-text search agrees with the current string values.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p01::def;
use crate::p10::{check_query, mismatch};
use crate::query::*;
use crate::vals::*;
use crate::world::*;

pub static PROP: Prop = Prop {
    id: "P15",
    rule: "Histories of transactions (committed, rolled back, with savepoints undone) that assert, replace, retract and re-assert strings of shared words on fulltext attributes of both cardinalities, many of them equal across entities, attributes and transactions; then fulltext clauses (words in any case, several words, prefixes, phrases, search strings from other attributes or inputs, every binding position free, joined or known) alone and joined with patterns, log clauses, or and not, and plain patterns with the same strings, compared with a naive evaluation over the model. Non-trivial: a search that finds something in a history that shared, retracted or re-asserted a string.",
    quick_cases: 4000,
    thorough_cases: 40000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &[
        "searches use words, prefixes, phrases and their conjunction; operators of SQLite's search language (OR, NOT, NEAR, column filters) are left out",
        "words are runs of letters and digits, compared without regard to case",
    ],
};

const WORDS: [&str; 24] = ["quick", "Quick", "brown", "fox", "foxes", "lazy", "dog", "Dog", "dogs", "12", "x1", "Été", "été", "naïve", "π", "Π", "straße", "日本", "a", "or", "over", "the", "quickly", "123"];
const SEPS: [&str; 9] = [" ", " ", " ", "  ", "-", ", ", "\n", ". ", " ☃ "];

fn sentence(s: &mut Src) -> String {
    if s.chance(1, 25) {
        return s.pick(&["", " ", "-", "☃", "5", "%", "'"]).to_string();
    }
    let n = s.size(1, 4);
    let mut o = String::new();
    for i in 0..n {
        if i > 0 {
            o.push_str(*s.pick(&SEPS));
        }
        o.push_str(*s.pick(&WORDS));
    }
    o
}

fn gen_tx(s: &mut Src, m: &Model, big: bool) -> Vec<Ent> {
    let ids: Vec<i64> = {
        let mut v: Vec<i64> = m.facts.keys().filter(|k| k.0 >= USER0 && k.0 < TX0 && !m.schema.contains_key(&k.0)).map(|k| k.0).collect();
        v.dedup();
        v
    };
    let fts: Vec<(String, i64)> = m.schema.iter().filter(|(_, a)| a.vt == Vt::Str && a.fulltext).map(|(e, _)| (m.idents.iter().find(|(_, x)| *x == e).unwrap().0.clone(), *e)).collect();
    let old: Vec<(i64, i64, String)> = m.facts.keys().filter_map(|k| match &k.2 { V::Str(t) if k.0 >= USER0 && k.0 < TX0 && k.1 >= USER0 => Some((k.0, k.1, t.clone())), _ => None }).collect();
    let past: Vec<String> = m.log.iter().flat_map(|(_, ds)| ds.iter().filter(|d| d.1 >= USER0).filter_map(|d| match &d.2 { V::Str(t) => Some(t.clone()), _ => None })).collect();
    let n = if big { s.size(60, 120) } else { s.size(1, 6) };
    let mut out = vec![];
    let mut seen = vec![];
    for _ in 0..n {
        let e = if !ids.is_empty() && s.chance(3, 5) { Ep::Id(*s.pick(&ids)) } else { Ep::Temp(s.pick(&["a", "b", "c", "d"]).to_string()) };
        let text = if !past.is_empty() && s.chance(1, 2) { s.pick(&past).clone() } else { sentence(s) };
        let a = |s: &mut Src, n: &(String, i64)| ARef { name: if s.chance(1, 5) { AName::Id(n.1) } else { AName::Ident(n.0.clone()) }, rev: false };
        match s.weighted(&[10, 4, 1, 1]) {
            0 => {
                let f = s.pick(&fts).clone();
                let a = a(s, &f);
                // One value for an attribute of one value.
                let key = (format!("{:?}", e), f.1);
                if m.schema[&f.1].many || !seen.contains(&key) {
                    seen.push(key);
                    out.push(Ent::List(true, e, a, Vp::Val(V::Str(text))));
                }
            }
            1 => {
                if let Some((e, a, t)) = s.pick_opt(&old).cloned() {
                    if !seen.contains(&(format!("{:?}", Ep::Id(e)), a)) {
                        out.push(Ent::List(false, Ep::Id(e), ARef { name: AName::Id(a), rev: false }, Vp::Val(V::Str(t))));
                    }
                }
            }
            2 => {
                let v = s.pick(&WORDS).to_string();
                out.push(Ent::List(true, e, ARef { name: AName::Ident(":s/plain".into()), rev: false }, Vp::Val(V::Str(if s.bool() { v } else { text }))));
            }
            _ => {
                if let Some(r) = s.pick_opt(&ids) {
                    out.push(Ent::List(true, e, ARef { name: AName::Ident(":s/r".into()), rev: false }, Vp::Val(V::Ref(*r))));
                }
            }
        }
    }
    out
}

fn history(s: &mut Src, ctx: &mut Ctx, w: &mut World) -> CaseResult {
    let n = s.size(2, 8);
    for _ in 0..n {
        let big = s.chance(1, 150);
        match s.weighted(&[6, 1, 2]) {
            0 => {
                let t = gen_tx(s, &w.m, big);
                w.transact_noted(&t, ctx)?;
                if big {
                    ctx.label("big transaction");
                }
            }
            1 => {
                // Rolled back.
                let mut m = w.m.clone();
                let mut ip = w.store.begin_transaction().map_err(es)?;
                let t = gen_tx(s, &m, false);
                transact_ip(&mut ip, &mut m, &t, ctx)?;
                ctx.note("rollback");
                ctx.label("rollback");
                ip.rollback().map_err(es)?;
            }
            _ => {
                let mut m = w.m.clone();
                {
                    let mut ip = w.store.begin_transaction().map_err(es)?;
                    let k = s.size(1, 3);
                    for i in 0..k {
                        if s.chance(1, 3) {
                            let name = format!("s{}", i);
                            ip.savepoint(&name).map_err(es)?;
                            let t = gen_tx(s, &m, false);
                            let mut m2 = m.clone();
                            let done = transact_ip(&mut ip, &mut m2, &t, ctx)?;
                            if done.is_some() && s.bool() {
                                ip.release_savepoint(&name).map_err(es)?;
                                m = m2;
                            } else {
                                ctx.note("rollback to savepoint");
                                ctx.label("savepoint undone");
                                ip.rollback_savepoint(&name).map_err(es)?;
                            }
                        } else {
                            let t = gen_tx(s, &m, false);
                            if transact_ip(&mut ip, &mut m, &t, ctx)?.is_none() {
                                break;
                            }
                            ask_ip(s, ctx, &ip, &m)?;
                        }
                    }
                    ip.commit().map_err(es)?;
                }
                ctx.label("several in one transaction");
                w.m = m;
            }
        }
    }
    Ok(())
}

fn gen_full(s: &mut Src, db: &Db, m: &Model) -> Option<Query> {
    let ents = TxGen::new(&defs_of(m)).user_ents(m);
    let mut qg = QGen::new(db, ents);
    qg.full = true;
    qg.log = s.chance(1, 8);
    qg.input_pct = 30;
    let mut q = if s.chance(1, 3) {
        // A search alone.
        let c = qg.full_clause(s, &[], true, None, &[])?;
        let find = qg.bound.iter().map(|x| El::Var(*x)).collect();
        Query { shape: Shape::Rel, find, with: vec![], inputs: vec![], order: vec![], limit: None, wh: vec![c], nvars: qg.ty.len(), clash: false }
    } else {
        qg.query(s, 1, 4)?
    };
    // The score.
    if s.chance(1, 8) {
        let x = q.nvars;
        if let Some(Cl::Full { b, .. }) = q.wh.iter_mut().find(|c| matches!(c, Cl::Full { .. })) {
            while b.len() < 3 {
                b.push(Tm::Blank);
            }
            b.push(Tm::Var(x));
            q.find.push(El::Var(x));
            q.nvars += 1;
        }
    }
    // Inputs for what is searched, and where.
    if s.chance(1, 4) {
        for c in q.wh.iter_mut() {
            if let Cl::Full { a, text, .. } = c {
                let x = q.nvars;
                match (s.bool(), &a, &text) {
                    (true, Tm::C(v @ V::Ref(_)), _) => {
                        q.inputs.push((x, v.clone()));
                        *a = Tm::Var(x);
                    }
                    (false, _, Tm::C(v @ V::Str(_))) => {
                        q.inputs.push((x, v.clone()));
                        *text = Tm::Var(x);
                    }
                    _ => continue,
                }
                q.nvars += 1;
            }
        }
    }
    Some(q)
}

fn ask_ip(s: &mut Src, ctx: &mut Ctx, ip: &mentat::InProgress, m: &Model) -> CaseResult {
    let db = Db::new(m);
    if let Some(q) = gen_full(s, &db, m) {
        check_query(ip, &db, &q, ctx)?;
        ctx.label("asked inside a transaction");
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let mut w = World::mem()?;
    let mut defs = vec![
        def(":f/many", Vt::Str, true, None),
        def(":f/one", Vt::Str, false, None),
        def(":f/other", Vt::Str, true, if s.chance(1, 4) { Some(Uniq::Identity) } else { None }),
        def(":s/plain", Vt::Str, true, None),
        def(":s/r", Vt::Ref, true, None),
    ];
    for d in defs.iter_mut().take(3) {
        d.attr.fulltext = true;
        d.attr.index = true;
    }
    w.install(&defs, ctx)?;
    history(s, ctx, &mut w)?;
    let db = Db::new(&w.m);
    // Strings met more than once.
    let mut met: std::collections::BTreeMap<&V, usize> = Default::default();
    for ds in w.m.log.values() {
        for d in ds {
            if let V::Str(_) = d.2 {
                *met.entry(&d.2).or_default() += 1;
            }
        }
    }
    let shared = met.values().any(|n| *n > 1);
    let mut found = false;
    for _ in 0..(if tier.thorough { 20 } else { 10 }) {
        let q = match gen_full(s, &db, &w.m) {
            Some(q) => q,
            None => continue,
        };
        let before = ctx.labels.get("non-empty answer").cloned().unwrap_or(0);
        if let Err(e) = check_query(&w.store, &db, &q, ctx) {
            let r = reduce_query(&q, &mut |c| mismatch(&w.store, &db, c));
            let e2 = check_query(&w.store, &db, &r, &mut Ctx::default()).err().unwrap_or(e);
            return Err(e2);
        }
        if ctx.labels.get("non-empty answer").cloned().unwrap_or(0) > before && q.text().contains("(fulltext ") {
            found = true;
        }
    }
    ctx.nontrivial = shared && found;
    Ok(())
}

fn ask(c: &mut Ctx, query: &str, inputs: Vec<(&str, V)>, want: Vec<Vec<V>>) -> CaseResult {
    use mentat::Queryable;
    let mut w = World::mem()?;
    w.store.transact("[{:db/ident :t/f :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/index true :db/fulltext true}]").map_err(es)?;
    w.store.transact("[[:db/add 1 :t/f \"lazy dog\"] [:db/add 2 :t/f \"lazy fox\"]]").map_err(es)?;
    c.note(query);
    c.nontrivial = true;
    let values = inputs.into_iter().map(|(n, v)| (mentat::Variable::from_valid_name(n), v.typed())).collect();
    let mut got = rows_of(&w.store.q_once(query, mentat::QueryInputs::with_value_sequence(values)).map_err(es)?.results)?;
    got.sort();
    crate::check!(got == want, "{}: {:?} instead of {:?}", query, got, want);
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("a known value in the value place", |c| {
            ask(c, "[:find ?e :in ?v :where [(fulltext $ :t/f \"lazy\") [[?e ?v]]]]", vec![("?v", V::s("lazy fox"))], vec![vec![V::Ref(2)]])
        }),
        ("a grounded value in the value place", |c| {
            ask(c, "[:find ?e :where [(ground \"lazy dog\") ?v] [(fulltext $ :t/f \"lazy\") [[?e ?v]]]]", vec![], vec![vec![V::Ref(1)]])
        }),
    ]
}
