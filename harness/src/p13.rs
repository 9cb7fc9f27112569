//! P13: equivalent ways of posing a query give equal answers.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p03::cache_op;
use crate::query::*;
use crate::vals::*;
use crate::world::*;
use mentat::{QueryInputs, QueryResults, Queryable, Variable};
use std::collections::BTreeSet;

pub static PROP: Prop = Prop {
    id: "P13",
    rule: "Random queries (P10's clauses, P11's find specs, orders and aggregates) over random stores are answered once through Store::q_once, and again: prepared and run twice; through the Conn (cached and uncached), a read transaction, an open write transaction with and without caches; with attributes cached; with inputs written inline or grounded, constants turned into inputs, variables renamed, clauses permuted, repeated or wrapped in or, attributes and entities written as idents or ids, ref patterns reversed, a source named, sections of the query reordered, and commas, newlines and comments between tokens. On file stores, a query prepared through one connection is run again after transactions through another and compared with the model. Non-trivial: a non-empty answer reproduced by at least one rewritten query.",
    quick_cases: 5000,
    thorough_cases: 30000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &[
        "queries whose meaning P10 leaves open (equal longs and doubles, its known findings) are left out",
        "rewritten queries that the naive evaluator tells apart (by the order-dependence of not) are left out",
        "sums and averages of doubles agree up to rounding",
        "a count of nothing may give no row or 0, as P11 allows",
    ],
};

#[derive(Clone)]
pub struct Posed {
    pub how: &'static str,
    pub text: String,
    pub inputs: Vec<(String, V)>,
}

impl Posed {
    fn of(how: &'static str, q: &Query) -> Posed {
        Posed { how, text: q.text(), inputs: q.inputs.iter().map(|(x, v)| (default_name(*x), v.clone())).collect() }
    }
    pub fn qi(&self) -> QueryInputs {
        QueryInputs::with_value_sequence(self.inputs.iter().map(|(n, v)| (Variable::from_valid_name(n), v.typed())).collect())
    }
    fn show(&self) -> String {
        format!("{}{}", self.text, self.inputs.iter().map(|(n, v)| format!("  {}={}", n, v)).collect::<String>())
    }
}

/// An answer in a form that may be compared.
#[derive(Clone, Debug)]
struct Ans {
    shape: Shape,
    rows: Vec<Row>,
    ordered: Vec<usize>,
}

fn ans(q: &Query, r: &QueryResults) -> Result<Ans, String> {
    let rows = rows_of(r)?;
    // Columns by which the rows are ordered, as far as they are found.
    let mut ordered = vec![];
    for (x, _) in &q.order {
        match q.find.iter().position(|e| matches!(e, El::Var(y) if y == x)) {
            Some(p) => ordered.push(p),
            None => break,
        }
    }
    Ok(Ans { shape: shape_of(r), rows, ordered })
}

fn near(a: &V, b: &V) -> bool {
    match (one_number(a), one_number(b)) {
        (V::Dbl(x), V::Dbl(y)) => x.0 == y.0 || (x.0 - y.0).abs() <= 1e-9 * (x.0.abs() + y.0.abs()) || (x.0.is_nan() && y.0.is_nan()),
        (x, y) => x == y,
    }
}

fn same(a: &Ans, b: &Ans) -> bool {
    let eq = |x: &Row, y: &Row| x.len() == y.len() && x.iter().zip(y).all(|(p, q)| near(p, q));
    if a.shape != b.shape || a.rows.len() != b.rows.len() {
        return false;
    }
    if a.rows.iter().zip(&b.rows).any(|(x, y)| a.ordered.iter().any(|i| !near(&x[*i], &y[*i]))) {
        return false;
    }
    let mut ra: Vec<Row> = a.rows.iter().map(|r| r.iter().map(one_number).collect()).collect();
    let mut rb: Vec<Row> = b.rows.iter().map(|r| r.iter().map(one_number).collect()).collect();
    ra.sort();
    rb.sort();
    if ra.iter().zip(&rb).all(|(x, y)| eq(x, y)) {
        return true;
    }
    // Sums may sort differently.
    let mut left = rb;
    ra.iter().all(|x| match left.iter().position(|y| eq(x, y)) {
        Some(i) => {
            left.swap_remove(i);
            true
        }
        None => false,
    })
}

fn pinned(c: &Cl, x: usize, v: &V, db: &Db) -> bool {
    match c {
        Cl::Pat { e, a, v: val, .. } => {
            if let Tm::Ident(i) = a {
                let vt = db.idents.get(i).and_then(|a| db.vt.get(a));
                (*e == Tm::Var(x) && v.vt() == Vt::Ref) || (*val == Tm::Var(x) && vt == Some(&v.vt()) && *e != Tm::Var(x))
            } else {
                false
            }
        }
        _ => false,
    }
}

/// Whether what integers and keywords in grounds stand for is settled by a pattern before them.
fn grounds_settled(q: &Query, db: &Db) -> bool {
    (0..q.wh.len()).all(|i| match &q.wh[i] {
        Cl::Ground { vars, rows, .. } => vars.iter().enumerate().all(|(j, x)| {
            let x = match x {
                Some(x) => *x,
                None => return true,
            };
            rows.iter().all(|r| match &r[j] {
                Tm::C(v @ (V::Long(_) | V::Ref(_) | V::Kw(_))) => q.wh[..i].iter().any(|c| pinned(c, x, v, db)),
                Tm::C(_) => true,
                _ => false,
            })
        }),
        _ => true,
    })
}

fn mentions(c: &Cl, x: usize) -> bool {
    let mut s = BTreeSet::new();
    vars_of(std::slice::from_ref(c), &mut s);
    s.contains(&x)
}

fn free_of(q: &Query, x: usize) -> bool {
    !q.find_vars().contains(&x) && !q.with.contains(&x) && !q.order.iter().any(|(y, _)| *y == x) && !matches!(q.limit, Some(Limit::Var(y)) if y == x)
}

/// Rewrite a query; None if this rewriting doesn't apply.
fn rewrite(s: &mut Src, q: &Query, db: &Db) -> Option<(&'static str, Query)> {
    let mut n = q.clone();
    let pats: Vec<usize> = (0..q.wh.len()).filter(|i| matches!(q.wh[*i], Cl::Pat { .. })).collect();
    let how = match s.below(12) {
        0 => {
            // Inputs inline.
            let (x, v) = s.pick_opt(&q.inputs)?.clone();
            let uses: Vec<usize> = (0..q.wh.len()).filter(|i| mentions(&q.wh[*i], x)).collect();
            if uses.is_empty() || !free_of(q, x) || uses.iter().any(|i| !pinned(&q.wh[*i], x, &v, db)) {
                return None;
            }
            if matches!(v, V::Ref(r) if r < 0) {
                return None;
            }
            for i in uses {
                if let Cl::Pat { e, v: val, tx, .. } = &mut n.wh[i] {
                    if *tx == Tm::Var(x) {
                        return None;
                    }
                    for t in vec![e, val] {
                        if *t == Tm::Var(x) {
                            *t = Tm::C(v.clone());
                        }
                    }
                }
            }
            n.inputs.retain(|(y, _)| *y != x);
            "input inline"
        }
        1 => {
            let (x, v) = s.pick_opt(&q.inputs)?.clone();
            if matches!(q.limit, Some(Limit::Var(y)) if y == x) || matches!(v, V::Ref(r) if r < 0) {
                return None;
            }
            let at = match v {
                V::Long(_) | V::Ref(_) | V::Kw(_) => {
                    let first = (0..q.wh.len()).find(|i| mentions(&q.wh[*i], x))?;
                    if !pinned(&q.wh[first], x, &v, db) {
                        return None;
                    }
                    first + 1
                }
                _ => 0,
            };
            let form = s.below(4) as u8;
            n.wh.insert(at, Cl::Ground { form, vars: vec![Some(x)], rows: vec![vec![Tm::C(v)]] });
            n.inputs.retain(|(y, _)| *y != x);
            "input grounded"
        }
        2 => {
            // A constant as an input.
            let i = *s.pick_opt(&pats)?;
            let x = n.nvars;
            let place = s.below(3);
            if let Cl::Pat { e, a, v, .. } = &mut n.wh[i] {
                let id = |t: &Tm| match t {
                    Tm::Ident(i) => db.idents.get(i).map(|e| V::Ref(*e)),
                    Tm::C(V::Ref(r)) | Tm::C(V::Long(r)) => Some(V::Ref(*r)),
                    _ => None,
                };
                let vt = match &*a {
                    Tm::Ident(i) => db.idents.get(i).and_then(|a| db.vt.get(a)).cloned(),
                    _ => None,
                };
                let (t, val) = match place {
                    0 => {
                        let val = id(e)?;
                        (e, val)
                    }
                    1 => {
                        let val = match (&*v, vt?) {
                            (t, Vt::Ref) => id(t)?,
                            (Tm::C(V::Ref(n)), Vt::Long) => V::Long(*n),
                            (Tm::C(c), vt) if c.vt() == vt => c.clone(),
                            _ => return None,
                        };
                        (v, val)
                    }
                    _ => return None,
                };
                *t = Tm::Var(x);
                n.nvars += 1;
                n.inputs.push((x, val));
            }
            "constant as input"
        }
        3 | 4 => {
            // Patterns and what binds first, then the rest.
            let mut first = vec![];
            let mut rest = vec![];
            for i in s.permutation(q.wh.len()) {
                match &q.wh[i] {
                    Cl::Pred { .. } | Cl::Type { .. } | Cl::Not { .. } => rest.push(q.wh[i].clone()),
                    c => first.push(c.clone()),
                }
            }
            first.extend(rest);
            if first == q.wh {
                return None;
            }
            n.wh = first;
            "clauses permuted"
        }
        5 => {
            let i = *s.pick_opt(&pats)?;
            let c = n.wh[i].clone();
            if q.wh.len() > 5 || q.wh.iter().any(|d| q.wh.iter().filter(|e| *e == d).count() > 1) {
                return None;
            }
            n.wh.insert(i + 1, c);
            "clause repeated"
        }
        6 => {
            let i = *s.pick_opt(&pats)?;
            let c = n.wh[i].clone();
            let mut vs = BTreeSet::new();
            vars_of(std::slice::from_ref(&c), &mut vs);
            if vs.is_empty() {
                return None;
            }
            let legs = if s.bool() { vec![vec![c]] } else { vec![vec![c.clone()], vec![c]] };
            let join = if s.bool() { Some(vs.into_iter().collect()) } else { None };
            n.wh[i] = Cl::Or { join, legs };
            "clause in an or"
        }
        7 => {
            let i = *s.pick_opt(&pats)?;
            if let Cl::Pat { e, a, rev, .. } = &mut n.wh[i] {
                let t = if s.bool() { e } else { a };
                let id = match t {
                    Tm::Ident(i) => *db.idents.get(i)?,
                    _ => return None,
                };
                if *rev {
                    return None;
                }
                *t = Tm::C(V::Ref(id));
            }
            "ident as id"
        }
        8 => {
            let i = *s.pick_opt(&pats)?;
            if let Cl::Pat { e: Tm::Var(_), a: Tm::Ident(a), v: Tm::Var(_), rev, .. } = &mut n.wh[i] {
                if db.idents.get(a).and_then(|a| db.vt.get(a)) != Some(&Vt::Ref) {
                    return None;
                }
                *rev = !*rev;
            } else {
                return None;
            }
            "pattern reversed"
        }
        9 => {
            let i = *s.pick_opt(&pats)?;
            if let Cl::Pat { src, .. } = &mut n.wh[i] {
                *src = !*src;
            }
            "source named"
        }
        _ => {
            // Several at once.
            let mut m = q.clone();
            let mut k = 0;
            for _ in 0..4 {
                if let Some((_, r)) = rewrite(s, &m, db) {
                    m = r;
                    k += 1;
                }
            }
            if k < 2 {
                return None;
            }
            n = m;
            "several rewritings"
        }
    };
    if ["input grounded", "clauses permuted", "clause in an or", "several rewritings"].contains(&how) && !grounds_settled(&n, db) {
        return None;
    }
    Some((how, n))
}

/// Renamed variables, other white space, other order of sections.
fn respell(s: &mut Src, q: &Query) -> Posed {
    let pool = ["?zz", "?a", "?Value", "?x-y", "?x_value", "?entity2", "?m", "?bc", "?tx", "?A", "?q", "?z1", "?e", "?E", "?e_value_type_tag", "?v", "?datoms00", "?_x", "?s-p", "?n", "?o", "?w", "?w_value_type_tag", "?W"];
    let perm = s.permutation(pool.len());
    let name = |x: usize| if x < pool.len() { pool[perm[x]].to_string() } else { format!("?more{}", x) };
    match s.below(3) {
        0 => Posed { how: "variables renamed", text: Names(&name).query(q), inputs: q.inputs.iter().map(|(x, v)| (name(*x), v.clone())).collect() },
        1 => {
            let mut p = Posed::of("spaces and comments", q);
            let mut o = String::new();
            let mut quoted = false;
            let mut prev = ' ';
            for c in p.text.chars() {
                if c == '"' && prev != '\\' {
                    quoted = !quoted;
                }
                prev = if prev == '\\' && c == '\\' { ' ' } else { c };
                if c == ' ' && !quoted && !o.ends_with("#inst") && !o.ends_with("#uuid") && !o.ends_with("#f") {
                    o.push_str(*s.pick(&[" ", "\n", " , ", "\t", " ; a ] comment\n", "  ", ",", "\r\n"]));
                } else {
                    o.push(c);
                }
            }
            p.text = o;
            p
        }
        _ => {
            // Sections start with these keywords, which the generators don't use otherwise.
            let p = Posed::of("sections reordered", q);
            let inner = &p.text[1..p.text.len() - 1];
            let mut cuts: Vec<usize> = [" :with ", " :in ", " :where ", " :order ", " :limit "].iter().filter_map(|k| inner.find(k)).collect();
            cuts.sort();
            let mut parts: Vec<&str> = vec![];
            for (i, c) in cuts.iter().enumerate() {
                parts.push(&inner[*c..*cuts.get(i + 1).unwrap_or(&inner.len())]);
            }
            let head = &inner[..cuts[0]];
            let perm = s.permutation(parts.len());
            let text = format!("[{}{}]", head, perm.into_iter().map(|i| parts[i]).collect::<String>());
            Posed { text, ..p }
        }
    }
}

fn once<Q: Queryable>(st: &Q, p: &Posed, q: &Query) -> Result<Ans, String> {
    match guarded(|| st.q_once(p.text.as_str(), p.qi())) {
        Ok(Ok(o)) => ans(q, &o.results),
        Ok(Err(e)) => Err(es(e)),
        Err(p) => Err(p),
    }
}

fn short(r: &Result<Ans, String>) -> String {
    match r {
        Ok(a) => format!("{:?} {}", a.shape, show_rows(&a.rows.iter().collect::<Vec<_>>())),
        Err(e) => format!("error: {}", e),
    }
}

/// A count of nothing gives 0 or no row.
fn nothing(a: &Ans, b: &Ans) -> bool {
    a.rows.is_empty() && b.rows.len() == 1 && b.rows[0].iter().all(|v| *v == V::Long(0))
}

fn agree(how: &str, base: &Posed, other: &Posed, a: &Result<Ans, String>, b: &Result<Ans, String>, ctx: &mut Ctx) -> CaseResult {
    let ok = match (a, b) {
        (Ok(x), Ok(y)) => same(x, y) || nothing(x, y) || nothing(y, x),
        (Err(_), Err(_)) => true,
        (Ok(x), Err(e)) => x.rows.is_empty() && (e.contains("invalid argument to") || e.contains("apply projection operation")),
        (Err(_), Ok(_)) => false,
    };
    if !ok {
        return Err(format!("{}: {}\n  gives {}\n  but {}\n  gives {}", how, base.show(), short(a), other.show(), short(b)));
    }
    ctx.label(match how {
        "prepared" => "prepared",
        h => {
            let known = ["Conn", "uncached", "read transaction", "write transaction", "write transaction without caches", "cached", "variables renamed", "spaces and comments", "sections reordered", "input inline", "input grounded", "constant as input", "clauses permuted", "clause repeated", "clause in an or", "ident as id", "pattern reversed", "source named", "several rewritings"];
            known.iter().find(|k| **k == h).cloned().unwrap_or("other")
        }
    });
    Ok(())
}

fn gen_query(s: &mut Src, db: &Db, m: &Model) -> Option<Query> {
    let ents = TxGen::new(&defs_of(m)).user_ents(m);
    let mut qg = QGen::new(db, ents);
    qg.input_pct = 60;
    let mut q = qg.query(s, 1, 5)?;
    if s.chance(1, 2) {
        crate::p11::dress(s, &mut q, &qg);
        // What the order leaves open would differ.
        for e in q.find.iter_mut() {
            if let El::The(x) = e {
                *e = El::Var(*x);
            }
        }
        let mut seen = BTreeSet::new();
        q.find.retain(|e| match e {
            El::Var(x) => seen.insert(*x),
            _ => true,
        });
        q.limit = None;
        q.inputs.retain(|(x, _)| *x < qg.ty.len());
        match q.shape {
            Shape::Tuple => q.shape = Shape::Rel,
            Shape::Scalar => q.shape = Shape::Coll,
            _ => {}
        }
    }
    Some(q)
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    if s.chance(1, 12) {
        return fresh(s, ctx);
    }
    let n = s.size(2, 5);
    let mut w = world(s, ctx, n)?;
    let db = Db::new(&w.m);
    for _ in 0..(if tier.thorough { 8 } else { 5 }) {
        let q = match gen_query(s, &db, &w.m) {
            Some(q) => q,
            None => continue,
        };
        let envs = match Eval::new(&db).decided(&q) {
            Ok(e) => e,
            Err(e) => {
                ctx.label(if let Stop::Big = e { "skipped: too big" } else { "skipped: left open" });
                continue;
            }
        };
        let base = Posed::of("as written", &q);
        ctx.note(base.show());
        label_query(&q, ctx);
        let a = once(&w.store, &base, &q);
        // Prepared, twice.
        let p = guarded(|| -> Result<(Ans, Ans), String> {
            let mut p = w.store.q_prepare(base.text.as_str(), base.qi()).map_err(es)?;
            let x = p.run(None).map_err(es)?;
            let x = ans(&q, &x.results)?;
            let y = p.run(None).map_err(es)?;
            Ok((x, ans(&q, &y.results)?))
        });
        let p = match p {
            Ok(p) => p,
            Err(e) => Err(e),
        };
        agree("prepared", &base, &base, &a, &p.as_ref().map(|x| x.0.clone()).map_err(|e| e.clone()), ctx)?;
        agree("prepared", &base, &base, &a, &p.as_ref().map(|x| x.1.clone()).map_err(|e| e.clone()), ctx)?;
        // Other paths.
        match s.below(4) {
            0 => {
                let b = {
                    let ip = w.store.begin_read().map_err(es)?;
                    once(&ip, &base, &q)
                };
                agree("read transaction", &base, &base, &a, &b, ctx)?;
            }
            1 => {
                let (b, c) = {
                    let mut ip = w.store.begin_transaction().map_err(es)?;
                    let b = once(&ip, &base, &q);
                    ip.use_caching(false);
                    (b, once(&ip, &base, &q))
                };
                agree("write transaction", &base, &base, &a, &b, ctx)?;
                agree("write transaction without caches", &base, &base, &a, &c, ctx)?;
            }
            2 => {
                // Take the store apart and put it together.
                let m = w.m.clone();
                let (mut sq, mut conn) = w.store.dismantle();
                let b = match guarded(|| conn.q_once(&sq, base.text.as_str(), base.qi())) {
                    Ok(r) => r.map_err(es).and_then(|o| ans(&q, &o.results)),
                    Err(e) => Err(e),
                };
                let c = match guarded(|| conn.q_uncached(&sq, base.text.as_str(), base.qi())) {
                    Ok(r) => r.map_err(es).and_then(|o| ans(&q, &o.results)),
                    Err(e) => Err(e),
                };
                let d = {
                    let ip = conn.begin_uncached_read(&mut sq).map_err(es)?;
                    once(&ip, &base, &q)
                };
                agree("Conn", &base, &base, &a, &b, ctx)?;
                agree("uncached", &base, &base, &a, &c, ctx)?;
                agree("uncached", &base, &base, &a, &d, ctx)?;
                drop(conn);
                // The same data in a new store.
                w = World::mem()?;
                w.m = m;
                return Ok(());
            }
            _ => {}
        }
        // Rewritten.
        let mut some = false;
        for _ in 0..4 {
            let other = if s.chance(1, 4) {
                respell(s, &q)
            } else {
                let (how, n) = match rewrite(s, &q, &db) {
                    Some(r) => r,
                    None => continue,
                };
                // Do they mean the same?
                let vars = |q: &Query| {
                    let mut v = q.find_vars();
                    v.extend(&q.with);
                    v.extend(q.order.iter().map(|(x, _)| *x));
                    v
                };
                match (&envs, guarded(|| Eval::new(&db).decided(&n))) {
                    (e, Ok(Ok(f))) => {
                        let vs = vars(&q);
                        let proj = |es: &Vec<Env>| -> BTreeSet<Vec<Option<V>>> { es.iter().map(|e| vs.iter().map(|x| e[*x].clone()).collect()).collect() };
                        if proj(e) != proj(&f) {
                            ctx.label("rewriting left out");
                            continue;
                        }
                    }
                    _ => {
                        ctx.label("rewriting left out");
                        continue;
                    }
                }
                Posed::of(how, &n)
            };
            ctx.note(format!("{}: {}", other.how, other.show()));
            let b = once(&w.store, &other, &q);
            if let (Ok(x), Err(e)) = (&a, &b) {
                // A known input rules out types that an inline constant doesn't, and the other way.
                if x.rows.is_empty() && q.clash {
                    ctx.note(format!("  refused: {}", e));
                    continue;
                }
            }
            if a.is_err() && q.clash {
                continue;
            }
            agree(other.how, &base, &other, &a, &b, ctx)?;
            some = true;
        }
        if some {
            if let Ok(x) = &a {
                if !x.rows.is_empty() {
                    ctx.nontrivial = true;
                }
            }
        }
        if s.chance(1, 3) {
            if let Some((k, d, act, n)) = cache_op(s, &w.m) {
                if matches!(act, mentat::CacheAction::Register) {
                    ctx.note(n);
                    w.store.cache(&k, d).map_err(es)?;
                    let b = once(&w.store, &base, &q);
                    agree("cached", &base, &base, &a, &b, ctx)?;
                }
            }
        }
    }
    Ok(())
}

/// Prepared queries against data committed later, through another connection.
fn fresh(s: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let dir = ctx.dir();
    let path = dir.join("fresh.db");
    let mut w = World::open_file(&path)?;
    let defs = gen_schema(s, 3, 7);
    w.install(&defs, ctx)?;
    let mut g = TxGen::new(&defs);
    g.retract_pct = 20;
    for _ in 0..2 {
        let t = g.ok_tx(s, &w.m);
        w.transact_noted(&t, ctx)?;
    }
    let reader = mentat::Store::open(path.to_str().unwrap()).map_err(es)?;
    let db0 = Db::new(&w.m);
    let mut qs: Vec<Query> = vec![];
    for _ in 0..6 {
        let ents = g.user_ents(&w.m);
        let mut qg = QGen::new(&db0, ents);
        if let Some(q) = qg.query(s, 1, 3) {
            ctx.note(format!("prepare {}", q.show()));
            qs.push(q);
        }
    }
    let mut prepared = vec![];
    for q in &qs {
        match guarded(|| reader.q_prepare(q.text().as_str(), q.inputs())) {
            Ok(Ok(p)) => prepared.push((q, p)),
            _ => ctx.label("not prepared"),
        }
    }
    for _ in 0..3 {
        let t = g.ok_tx(s, &w.m);
        w.transact_noted(&t, ctx)?;
        let db = Db::new(&w.m);
        for (q, p) in prepared.iter_mut() {
            // What keywords stand for was settled when the query was prepared.
            let moved = q.text().split(|c: char| c.is_whitespace() || "[](){}\"".contains(c)).any(|k| {
                let k = k.replace("/_", "/");
                k.starts_with(':') && db.idents.get(&k) != db0.idents.get(&k)
            });
            if moved {
                ctx.label("prepared before a keyword changed its meaning");
                continue;
            }
            let want = match Eval::new(&db).rows(q) {
                Ok(r) => r,
                Err(_) => continue,
            };
            let out = p.run(None).map_err(|e| format!("prepared {} failed: {}", q.show(), e))?;
            let got = rows_of(&out.results)?;
            same_rows(q, &want, &got).map_err(|e| format!("prepared before the last transaction: {}", e))?;
            let old = Eval::new(&db0).rows(q).unwrap_or_default();
            if old != want {
                ctx.nontrivial = true;
                ctx.label("prepared query sees later data");
            }
        }
    }
    Ok(())
}

fn renamed(c: &mut Ctx, a: &str, b: &str) -> CaseResult {
    let mut w = World::mem()?;
    w.store.transact("[{:db/ident :t/r :db/valueType :db.type/ref :db/cardinality :db.cardinality/many} {:db/ident :t/l :db/valueType :db.type/long :db/cardinality :db.cardinality/many}]").map_err(es)?;
    w.store.transact("[[:db/add 1 :t/r 2] [:db/add 1 :t/r 1] [:db/add 2 :t/r 2] [:db/add 2 :t/l 7] [:db/add 1 :t/l 8]]").map_err(es)?;
    c.nontrivial = true;
    for t in &["[:find (count X) Y :where [X :t/r 1] [Y :t/r _]]", "[:find X Y :where [X :t/r _] [Y :t/r 2] (or [X :t/l 7] [X :t/l 8])]", "[:find X Y :where [X _ 2] [_ :t/l Y] (or-join [X Y] [X _ Y] (and [X :t/r] [_ _ Y]))]"] {
        let get = |x: &str, y: &str| -> Result<Vec<Row>, String> {
            let text = t.replace('X', x).replace('Y', y);
            let o = w.store.q_once(text.as_str(), None).map_err(es)?;
            let mut r = rows_of(&o.results)?;
            r.sort();
            Ok(r)
        };
        let (x, y) = (get("?p", "?q")?, get(a, b)?);
        crate::check!(x == y, "variables {} and {} in {} give {:?} instead of {:?}", a, b, t, y, x);
    }
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("variables that differ only in case", |c| renamed(c, "?a", "?A")),
        ("a variable named like the type tag of another", |c| renamed(c, "?a_value_type_tag", "?a").and_then(|_| renamed(c, "?a", "?a_value_type_tag"))),
    ]
}
