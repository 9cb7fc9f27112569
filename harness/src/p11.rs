//! P11: find specs, order, limit and aggregates shape results as defined.

use crate::check;
use crate::engine::*;
use crate::gen::*;
use crate::query::*;
use crate::vals::*;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

pub static PROP: Prop = Prop {
    id: "P11",
    rule: "The random stores and where clauses of P10 under random find specs (relation, tuple, collection, scalar), plain or with count / sum / avg / min / max / (the ?x) and :with, with :order over one to three variables in both directions (found or not, of known and of open type) and :limit as a number or an input. The expected multiset of rows is computed from the naive evaluator's bindings: distinct over the find, :with and :order variables, grouped by the plain find variables; order is checked as a sequence of classes of equal keys, limits as a prefix of it, tuples and scalars as a first row. Non-trivial: an answer of at least two rows (before tuple / scalar / limit cut it) under an order, limit, aggregate, or shape other than relation.",
    quick_cases: 5000,
    thorough_cases: 50000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &[
        "the naive evaluator in harness/src/query.rs is the documented meaning of where clauses",
        "values of different types are ordered by type first; ties are ordered at will; (the ?x) picks any of the bindings that attain the extreme",
        "an aggregate over nothing, without plain variables, may give no row or a count of 0; sums and averages of doubles are compared up to rounding",
        "in a query with aggregates, :order names only plain or (the ?x) variables (others are grouped by as well)",
    ],
};

/// SQLite's order of stored values.
fn tag(v: &V) -> u8 {
    match v {
        V::Ref(_) => 0,
        V::Bool(_) => 1,
        V::Inst(_) => 4,
        V::Long(_) | V::Dbl(_) => 5,
        V::Str(_) => 10,
        V::Uuid(_) => 11,
        V::Kw(_) => 13,
    }
}

fn cmp_values(a: &V, b: &V) -> Ordering {
    tag(a).cmp(&tag(b)).then_with(|| match (a, b) {
        (V::Str(x), V::Str(y)) => x.as_bytes().cmp(y.as_bytes()),
        (V::Kw(_), V::Kw(_)) => a.edn().as_bytes().cmp(b.edn().as_bytes()),
        _ => compare(a, b).unwrap_or_else(|| a.cmp(b)),
    })
}

fn cmp_keys(a: &[V], b: &[V], dirs: &[bool]) -> Ordering {
    for ((x, y), asc) in a.iter().zip(b).zip(dirs) {
        let o = cmp_values(x, y);
        if o != Ordering::Equal {
            return if *asc { o } else { o.reverse() };
        }
    }
    Ordering::Equal
}

/// What one cell of an aggregate row may be.
#[derive(Debug)]
enum Cell {
    Is(V),
    OneOf(BTreeSet<V>),
    Near(f64, f64),
}

impl Cell {
    fn holds(&self, v: &V) -> bool {
        match self {
            Cell::Is(w) => v == w,
            Cell::OneOf(s) => s.contains(v),
            Cell::Near(x, tol) => match v {
                V::Dbl(d) => (d.0 - x).abs() <= *tol,
                _ => false,
            },
        }
    }
}

enum Group {
    Row(Vec<Cell>),
    /// A sum out of range: the query may only fail.
    Overflow,
    Undecided,
}

fn aggregate(q: &Query, rows: &[&Row], at: &BTreeMap<usize, usize>) -> Group {
    let mut cells = vec![];
    let col = |x: usize| rows.iter().map(move |r| &r[at[&x]]);
    let extreme = |f: &str, x: usize| {
        let want = if f == "max" { Ordering::Greater } else { Ordering::Less };
        let mut best = &rows[0][at[&x]];
        for v in col(x) {
            if cmp_values(v, best) == want {
                best = v;
            }
        }
        best.clone()
    };
    for e in &q.find {
        cells.push(match e {
            El::Var(x) => Cell::Is(rows[0][at[x]].clone()),
            El::Agg("count", _) => Cell::Is(V::Long(rows.len() as i64)),
            El::Agg(f @ "min", x) | El::Agg(f @ "max", x) => {
                let m = extreme(f, *x);
                Cell::OneOf(col(*x).filter(|v| cmp_values(v, &m) == Ordering::Equal).cloned().collect())
            }
            El::Agg(f, x) => {
                let mut int = 0i128;
                let mut sum = 0f64;
                let mut abs = 0f64;
                let mut ints = true;
                for v in col(*x) {
                    match v {
                        V::Long(n) => {
                            int += *n as i128;
                            sum += *n as f64;
                            abs += (*n as f64).abs();
                        }
                        V::Dbl(d) => {
                            ints = false;
                            sum += d.0;
                            abs += d.0.abs();
                        }
                        _ => return Group::Undecided,
                    }
                }
                if !abs.is_finite() {
                    return Group::Undecided;
                }
                let tol = abs * 1e-12;
                if *f == "avg" {
                    let n = rows.len() as f64;
                    Cell::Near(sum / n, tol / n)
                } else if ints {
                    if int > i64::MAX as i128 || int < i64::MIN as i128 {
                        return Group::Overflow;
                    }
                    if rows.len() > 1 && abs > 9e18 {
                        // A partial sum may overflow.
                        return Group::Undecided;
                    }
                    Cell::Is(V::Long(int as i64))
                } else {
                    // Mixed longs and doubles add up as doubles.
                    Cell::Near(sum, tol)
                }
            }
            El::The(x) => {
                let (f, y) = q
                    .find
                    .iter()
                    .find_map(|e| match e {
                        El::Agg(f, y) if *f == "min" || *f == "max" => Some((*f, *y)),
                        _ => None,
                    })
                    .expect("min or max");
                let m = extreme(f, y);
                Cell::OneOf(rows.iter().filter(|r| cmp_values(&r[at[&y]], &m) == Ordering::Equal).map(|r| r[at[x]].clone()).collect())
            }
        });
    }
    Group::Row(cells)
}

fn is_agg(q: &Query) -> bool {
    q.find.iter().any(|e| matches!(e, El::Agg(..)))
}

/// Give a relation query another find spec, order and limit.
pub fn dress(s: &mut Src, q: &mut Query, qg: &QGen) {
    let bound = qg.bound.clone();
    let ty = |x: usize| qg.ty[x];
    if s.chance(1, 2) {
        // Aggregates.
        let mut find = vec![];
        let mut used = BTreeSet::new();
        let mut extremes = 0;
        let n = s.size(1, 3);
        let sums: Vec<usize> = bound.iter().cloned().filter(|x| ty(*x) & !numeric() == 0).collect();
        for _ in 0..n {
            let any = sums.is_empty() || s.chance(1, 3);
            let x = *s.pick(if any { &bound } else { &sums });
            let t = ty(x);
            let mut fs = vec!["count"];
            if t & !numeric() == 0 {
                fs.extend(&["sum", "avg", "min", "max", "sum", "avg"]);
            } else if t.count_ones() == 1 && t & (bit(Vt::Inst) | bit(Vt::Bool) | bit(Vt::Str)) != 0 {
                fs.extend(&["min", "max", "min", "max"]);
            }
            let f = *s.pick(&fs);
            if f == "min" || f == "max" {
                extremes += 1;
            }
            find.push(El::Agg(f, x));
        }
        for _ in 0..s.below(3) {
            let x = *s.pick(&bound);
            if used.insert(x) {
                let el = if extremes == 1 && s.chance(1, 2) { El::The(x) } else { El::Var(x) };
                let at = s.idx(find.len() + 1);
                find.insert(at, el);
            }
        }
        q.find = find;
        let mut with = BTreeSet::new();
        for _ in 0..s.below(3) {
            with.insert(*s.pick(&bound));
        }
        q.with = with.into_iter().collect();
    } else if s.chance(1, 6) {
        q.with = vec![*s.pick(&bound)];
    }
    match s.weighted(&[5, 2, 2, 2]) {
        0 => {}
        1 => q.shape = Shape::Tuple,
        k => {
            q.shape = if k == 2 { Shape::Coll } else { Shape::Scalar };
            let keep = s.idx(q.find.len());
            let el = q.find[keep].clone();
            q.find = if let El::The(x) = el { vec![El::Var(x)] } else { vec![el] };
        }
    }
    if s.chance(3, 5) {
        let from: Vec<usize> = if is_agg(q) {
            q.find
                .iter()
                .filter_map(|e| match e {
                    El::Var(x) | El::The(x) => Some(*x),
                    _ => None,
                })
                .collect()
        } else if s.chance(1, 2) {
            q.find_vars()
        } else {
            bound
        };
        if !from.is_empty() {
            for _ in 0..s.size(1, 3) {
                let x = *s.pick(&from);
                if !q.order.iter().any(|(y, _)| *y == x) {
                    q.order.push((x, s.bool()));
                }
            }
        }
    }
    if s.chance(2, 5) {
        let n = match s.below(4) {
            0 => 1,
            1 => 2,
            2 => s.size(1, 6),
            _ => s.size(1, 200),
        };
        if s.chance(1, 3) {
            q.limit = Some(Limit::Var(q.nvars));
            q.inputs.push((q.nvars, V::Long(n as i64)));
            q.nvars += 1;
        } else {
            q.limit = Some(Limit::N(n as u64));
        }
    }
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(3, 6);
    let w = world(s, ctx, n)?;
    let db = Db::new(&w.m);
    let g = TxGen::new(&defs_of(&w.m));
    let ents = g.user_ents(&w.m);
    for _ in 0..(if tier.thorough { 14 } else { 10 }) {
        let mut qg = QGen::new(&db, ents.clone());
        let mut q = match qg.query(s, 1, 4) {
            Some(q) => q,
            None => continue,
        };
        dress(s, &mut q, &qg);
        if let Err(e) = check_shape(&w.store, &db, &q, ctx) {
            let kind = |e: &str| e.split(':').next().unwrap_or("").to_string();
            let k = kind(&e);
            let r = reduce_query(&q, &mut |c| {
                let fits = !c.find.iter().any(|e| matches!(e, El::The(_))) || c.find.iter().filter(|e| matches!(e, El::Agg("min", _) | El::Agg("max", _))).count() == 1;
                let fits = fits && (!is_agg(c) || c.order.iter().all(|(x, _)| c.find.iter().any(|e| matches!(e, El::Var(y) | El::The(y) if y == x))));
                fits && matches!(guarded(|| check_shape(&w.store, &db, c, &mut Ctx::default())), Ok(Err(ref e)) if kind(e) == k)
            });
            return Err(check_shape(&w.store, &db, &r, &mut Ctx::default()).err().unwrap_or(e));
        }
    }
    Ok(())
}

/// Check a query's answer. Errors start with their kind and a colon.
pub fn check_shape<Q: mentat::Queryable>(store: &Q, db: &Db, q: &Query, ctx: &mut Ctx) -> CaseResult {
    ctx.note(q.show());
    let envs = match Eval::new(db).decided(q) {
        Ok(e) => e,
        Err(Stop::Big) => {
            ctx.label("skipped: too many rows");
            return Ok(());
        }
        Err(Stop::Known) => {
            ctx.label("skipped: known finding");
            return Ok(());
        }
        Err(Stop::Ambiguous) => {
            ctx.label("skipped: ambiguous");
            return Ok(());
        }
    };
    let agg = is_agg(q);
    // The variables that make a row distinct.
    let mut vars: Vec<usize> = vec![];
    let with = if agg { q.with.clone() } else { vec![] };
    for x in q.find_vars().into_iter().chain(q.order.iter().map(|(x, _)| *x)).chain(with) {
        if !vars.contains(&x) {
            vars.push(x);
        }
    }
    let at: BTreeMap<usize, usize> = vars.iter().enumerate().map(|(i, x)| (*x, i)).collect();
    let all: BTreeSet<Row> = envs.iter().map(|e| vars.iter().map(|x| e[*x].clone().expect("bound")).collect()).collect();
    let canon: BTreeSet<Row> = all.iter().map(|r| r.iter().map(one_number).collect()).collect();
    if canon.len() < all.len() {
        ctx.label("skipped: equal long and double");
        return Ok(());
    }
    label_query(q, ctx);
    let dirs: Vec<bool> = q.order.iter().map(|(_, asc)| *asc).collect();
    let limit = match (&q.limit, q.shape) {
        (_, Shape::Tuple) | (_, Shape::Scalar) => Some(1),
        (Some(Limit::N(n)), _) => Some(*n as usize),
        (Some(Limit::Var(x)), _) => match q.inputs.iter().find(|(y, _)| y == x) {
            Some((_, V::Long(n))) => Some(*n as usize),
            _ => None,
        },
        (None, _) => None,
    };
    let answer = run_rows(store, q);

    // Refusals.
    if let Err(e) = &answer {
        if all.is_empty() && (q.clash || e.contains("invalid argument to") || e.contains("cannot apply projection operation") || e.contains("no possible types")) {
            ctx.label("query with a type clash refused");
            return Ok(());
        }
    }

    if !agg {
        let got = answer.map_err(|e| format!("failed: {}", e))?;
        // Classes of rows with equal keys, in order.
        let mut sorted: Vec<(Row, Row)> = all.iter().map(|r| (q.order.iter().map(|(x, _)| r[at[x]].clone()).collect(), q.find_vars().iter().map(|x| r[at[x]].clone()).collect())).collect();
        sorted.sort_by(|a, b| cmp_keys(&a.0, &b.0, &dirs));
        let want_len = std::cmp::min(limit.unwrap_or(usize::max_value()), sorted.len());
        check!(got.len() == want_len, "count: {} rows instead of {} from {}: {}", got.len(), want_len, q.show(), show_rows(&got.iter().collect::<Vec<_>>()));
        let mut i = 0;
        while i < got.len() {
            let mut j = i;
            while j < sorted.len() && cmp_keys(&sorted[i].0, &sorted[j].0, &dirs) == Ordering::Equal {
                j += 1;
            }
            let mut left: Vec<&Row> = sorted[i..j].iter().map(|(_, r)| r).collect();
            for r in &got[i..std::cmp::min(j, got.len())] {
                match left.iter().position(|l| *l == r) {
                    Some(k) => {
                        left.swap_remove(k);
                    }
                    None => return Err(format!("rows: {:?} is not among rows {}..{} of the answer to {} (in order: {})", r, i, j, q.show(), show_rows(&sorted.iter().map(|(_, r)| r).collect::<Vec<_>>()))),
                }
            }
            i = j;
        }
        if sorted.len() > 1 && (!q.order.is_empty() || limit.is_some() || q.shape != Shape::Rel) {
            ctx.nontrivial = true;
        }
        note(q, ctx, sorted.len(), limit);
        return Ok(());
    }

    // Aggregates.
    let plain: Vec<usize> = q
        .find
        .iter()
        .filter_map(|e| match e {
            El::Var(x) => Some(*x),
            _ => None,
        })
        .collect();
    let mut groups: BTreeMap<Row, Vec<&Row>> = BTreeMap::new();
    for r in &all {
        groups.entry(plain.iter().map(|x| r[at[x]].clone()).collect()).or_default().push(r);
    }
    if groups.keys().map(|k| k.iter().map(one_number).collect::<Row>()).collect::<BTreeSet<_>>().len() < groups.len() {
        ctx.label("skipped: equal long and double");
        return Ok(());
    }
    let mut want: BTreeMap<Row, Vec<Cell>> = BTreeMap::new();
    for (k, rows) in &groups {
        match aggregate(q, rows, &at) {
            Group::Row(r) => {
                want.insert(k.clone(), r);
            }
            Group::Overflow => {
                ctx.label("sum out of range");
                return match &answer {
                    Err(_) => Ok(()),
                    // A limit may leave the group out.
                    Ok(_) if limit.is_some() => Ok(()),
                    Ok(g) => Err(format!("overflow: {} answered {} for a sum out of range", q.show(), show_rows(&g.iter().collect::<Vec<_>>()))),
                };
            }
            Group::Undecided => {
                ctx.label("skipped: rounding or overflow undecided");
                return Ok(());
            }
        }
    }
    let got = answer.map_err(|e| format!("failed: {}", e))?;
    if all.is_empty() {
        let zero = plain.is_empty() && q.find.iter().all(|e| matches!(e, El::Agg("count", _)));
        let ok = got.is_empty() || (zero && got.len() == 1 && got[0].iter().all(|v| *v == V::Long(0)));
        check!(ok, "empty: {} over nothing gave {}", q.show(), show_rows(&got.iter().collect::<Vec<_>>()));
        ctx.label("aggregate over nothing");
        return Ok(());
    }
    let want_len = std::cmp::min(limit.unwrap_or(usize::max_value()), want.len());
    check!(got.len() == want_len, "count: {} rows instead of {} from {}: {}", got.len(), want_len, q.show(), show_rows(&got.iter().collect::<Vec<_>>()));
    let mut seen = BTreeSet::new();
    for r in &got {
        let key: Row = q.find.iter().zip(r).filter(|(e, _)| matches!(e, El::Var(_))).map(|(_, v)| v.clone()).collect();
        let cells = match want.get(&key) {
            Some(c) => c,
            None => return Err(format!("group: {} gave {:?}, a group that doesn't exist", q.show(), r)),
        };
        check!(seen.insert(key), "group: {} gave the group of {:?} twice", q.show(), r);
        for (c, v) in cells.iter().zip(r) {
            check!(c.holds(v), "value: {} gave {:?} where {:?} was expected ({} bindings in the group)", q.show(), r, cells, groups.values().map(|g| g.len()).max().unwrap_or(0));
        }
    }
    if !q.order.is_empty() {
        let pos: Vec<usize> = q
            .order
            .iter()
            .map(|(x, _)| q.find.iter().position(|e| matches!(e, El::Var(y) | El::The(y) if y == x)).expect("ordered by a found variable"))
            .collect();
        let keys: Vec<Row> = got.iter().map(|r| pos.iter().map(|p| r[*p].clone()).collect()).collect();
        for w in keys.windows(2) {
            check!(cmp_keys(&w[0], &w[1], &dirs) != Ordering::Greater, "order: {} gave {:?} before {:?}", q.show(), w[0], w[1]);
        }
        // The prefix.
        if got.len() < want.len() {
            let mut ks: Vec<Row> = vec![];
            for cells in want.values() {
                let mut k = vec![];
                for p in &pos {
                    match &cells[*p] {
                        Cell::Is(v) => k.push(v.clone()),
                        Cell::OneOf(s) if s.len() == 1 => k.push(s.iter().next().unwrap().clone()),
                        _ => {}
                    }
                }
                if k.len() < pos.len() {
                    ks.clear();
                    break;
                }
                ks.push(k);
            }
            if !ks.is_empty() {
                ks.sort_by(|a, b| cmp_keys(a, b, &dirs));
                for (a, b) in keys.iter().zip(&ks) {
                    check!(cmp_keys(a, b, &dirs) == Ordering::Equal, "prefix: {} gave a row with key {:?} instead of {:?}", q.show(), a, b);
                }
                ctx.label("prefix of ordered groups");
            }
        }
    }
    for e in &q.find {
        match e {
            El::Agg(f, _) => ctx.label(f),
            El::The(_) => ctx.label("the"),
            El::Var(_) => ctx.label("grouping"),
        }
    }
    if !q.with.is_empty() {
        ctx.label("with");
    }
    if all.len() > 1 {
        ctx.nontrivial = true;
    }
    if groups.values().any(|g| g.len() > 1) {
        ctx.label("aggregate over several bindings");
    }
    note(q, ctx, want.len(), limit);
    Ok(())
}

fn note(q: &Query, ctx: &mut Ctx, rows: usize, limit: Option<usize>) {
    ctx.label(match q.shape {
        Shape::Rel => "relation",
        Shape::Tuple => "tuple",
        Shape::Coll => "collection",
        Shape::Scalar => "scalar",
    });
    if !q.order.is_empty() {
        ctx.label("order");
        if rows > 1 {
            ctx.label("order over several rows");
        }
        if q.order.iter().any(|(x, _)| !q.find_vars().contains(x)) {
            ctx.label("order by a variable that is not found");
        }
    }
    match (&q.limit, limit) {
        (Some(_), Some(n)) if n < rows => ctx.label("limit that cuts"),
        (Some(_), _) => ctx.label("limit"),
        _ => {}
    }
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    use crate::p10::ask;
    vec![
        ("grouping by an input without any bindings", |c| ask(c, "[:find (count ?e) ?v :in ?v :where [?e :t/l ?v]]", vec![("?v", V::Long(77))], vec![])),
        ("extreme of an input without any bindings", |c| ask(c, "[:find (min ?v) (count ?e) :in ?v :where [?e :t/s ?v] [?e :t/u]]", vec![("?v", V::s("0"))], vec![])),
        ("extreme of an input over several bindings", |c| ask(c, "[:find (max ?v) :with ?e :in ?v :where [?e :t/l] [?x :t/l ?v]]", vec![("?v", V::Long(1))], vec![vec![V::Long(1)]])),
        ("average of a constant is a double", |c| ask(c, "[:find (avg ?v) . :where [?e :t/l ?v] [(ground 1) ?v]]", vec![], vec![vec![V::Dbl(D(1.0))]])),
        ("sum of nothing", |c| ask(c, "[:find (sum ?v) . :where [?e :t/l ?v] [?e :t/u]]", vec![], vec![])),
        ("sum out of range", |c| {
            use mentat::Queryable;
            let w = crate::world::World::mem()?;
            let r = w.store.q_once("[:find (sum ?v) . :where [(ground [9223372036854775807 9223372036854775806]) [?v ...]]]", None);
            c.note("sum of the two greatest longs".to_string());
            check!(r.is_err(), "the sum of the two greatest longs is {:?}", r.map(|r| r.results));
            Ok(())
        }),
        ("ordering by a corresponding variable", |c| ask(c, "[:find (max ?v) (the ?i) :where [?e :t/l ?v] [?e :db/ident ?i] :order ?i]", vec![], vec![vec![V::Long(1), V::kw(":e/x")]])),
        ("ordering where nothing can match", |c| ask(c, "[:find ?e :where [?e :t/b 5] [?e :t/l ?v] :order ?v]", vec![], vec![])),
        ("ordering longs and doubles", |c| ask(c, "[:find ?v :where [:e/x ?a ?v] [?a :db/ident :t/l] [(< ?v 5)] :order ?v]", vec![], vec![vec![V::Long(1)]])),
    ]
}
