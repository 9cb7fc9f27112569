//! P27: the query builder and typed accessors agree with raw query results.

use crate::check;
use crate::engine::*;
use crate::gen::*;
use crate::p11::{check_shape, dress};
use crate::query::*;
use crate::vals::*;
use crate::world::es;
use mentat::{Binding, BindingTuple, QueryBuilder, QueryInputs, QueryOutput, QueryResults, Queryable, RelResult, Store, TypedValue, Variable};

pub static PROP: Prop = Prop {
    id: "P27",
    rule: "The random stores, find specs and inputs of P11: every query is posed as text with explicit inputs and through a query builder, whose inputs are bound in random order by the method fitting (or any fitting) their type, rebound, given types that agree or not, named by ident; each of the four typed executions and of the accessors of the output is tried on every shape. Rows are read by index, by iteration, by consuming iteration and as fixed tuples of every arity; every value goes through every typed conversion, also of nested vectors and maps. Non-trivial: a query with at least one input that answers something.",
    quick_cases: 2500,
    thorough_cases: 40000,
    run,
    fixed,
    known: no_fixed,
    assumptions: &["the raw result (q_once with the same text and inputs) is itself checked against the naive evaluator of P10 and P11"],
};

/// Everything the typed accessors say about one value.
fn conversions(v: &V, what: &dyn Fn() -> String) -> CaseResult {
    let tv = v.typed();
    let b: Binding = tv.clone().into();
    macro_rules! same {
        ($name:ident, $want:expr, $map:expr) => {{
            let want = $want;
            let map = $map;
            let t = tv.clone().$name().map(&map);
            let u = b.clone().$name().map(&map);
            check!(t == want, "TypedValue::{} of {} ({}) gave {:?}", stringify!($name), v, what(), t);
            check!(u == want, "Binding::{} of {} ({}) gave {:?}", stringify!($name), v, what(), u);
        }};
    }
    let (mut e, mut bo, mut lo, mut db, mut ins, mut st, mut kw, mut uu) = (None, None, None, None, None, None, None, None);
    match v {
        V::Ref(x) => e = Some(*x),
        V::Bool(x) => bo = Some(*x),
        V::Long(x) => lo = Some(*x),
        V::Dbl(x) => db = Some(*x),
        V::Inst(x) => ins = Some(*x),
        V::Str(x) => st = Some(x.clone()),
        V::Kw(x) => kw = Some(x.clone()),
        V::Uuid(x) => uu = Some(*x),
    }
    same!(into_entid, e, |x| x);
    same!(into_known_entid, e, |x: mentat::KnownEntid| x.0);
    same!(into_boolean, bo, |x| x);
    same!(into_long, lo, |x| x);
    same!(into_double, db, D);
    same!(into_instant, ins, |x| micros(&x));
    same!(into_timestamp, ins.map(|i| i.div_euclid(1_000_000)), |x| x);
    same!(into_string, st.clone(), |x: std::sync::Arc<String>| x.to_string());
    same!(into_kw, kw.clone(), |x: std::sync::Arc<mentat::Keyword>| x.to_string());
    same!(into_uuid, uu, |x: uuid::Uuid| *x.as_bytes());
    let hex = uu.map(|u| uuid::Uuid::from_bytes(u).to_hyphenated().to_string());
    same!(into_uuid_string, hex.clone(), |x| x);
    let own = |p: *mut std::os::raw::c_char| unsafe { std::ffi::CString::from_raw(p).into_string().unwrap() };
    if !st.as_ref().map_or(false, |s| s.contains('\0')) {
        same!(into_c_string, st.clone(), own);
    }
    same!(into_kw_c_string, kw.clone(), own);
    same!(into_uuid_c_string, hex, own);
    check!(b.as_entid().cloned() == e, "as_entid of {}", v);
    check!(b.as_boolean().cloned() == bo, "as_boolean of {}", v);
    check!(b.as_long().cloned() == lo, "as_long of {}", v);
    check!(b.as_double().cloned().map(D) == db, "as_double of {}", v);
    check!(b.as_instant().map(|x| micros(x)) == ins, "as_instant of {}", v);
    check!(b.as_string().map(|x| x.to_string()) == st, "as_string of {}", v);
    check!(b.as_kw().map(|x| x.to_string()) == kw, "as_kw of {}", v);
    check!(b.as_uuid().map(|x| *x.as_bytes()) == uu, "as_uuid of {}", v);
    check!(b.as_scalar().map(V::of) == Some(v.clone()) && b.clone().into_scalar().map(|t| V::of(&t)) == Some(v.clone()), "scalar of {}", v);
    check!(b.as_vec().is_none() && b.as_map().is_none() && b.clone().into_vec().is_none() && b.clone().into_map().is_none(), "{} is structured", v);
    for t in &ALL_VT {
        let is = *t == v.vt();
        let m = t.mentat();
        check!(tv.matches_type(m) == is && b.matches_type(m) == is && tv.is_congruent_with(m) == is && b.is_congruent_with(m) == is, "type of {} against {:?}", v, t);
    }
    check!(tv.is_congruent_with(None) && b.is_congruent_with(None), "{} is not congruent with no type", v);
    check!(tv.value_type() == v.vt().mentat() && b.value_type() == Some(v.vt().mentat()), "value_type of {}", v);
    Ok(())
}

/// Structured bindings are no scalars of any type.
fn structured(b: Binding) -> CaseResult {
    check!(b.as_scalar().is_none() && b.as_entid().is_none() && b.as_kw().is_none() && b.as_boolean().is_none() && b.as_long().is_none() && b.as_double().is_none() && b.as_instant().is_none() && b.as_string().is_none() && b.as_uuid().is_none(), "as_* of {:?}", b);
    let c = || b.clone();
    check!(c().into_scalar().is_none() && c().into_entid().is_none() && c().into_known_entid().is_none() && c().into_kw().is_none() && c().into_boolean().is_none() && c().into_long().is_none() && c().into_double().is_none() && c().into_instant().is_none() && c().into_timestamp().is_none() && c().into_string().is_none() && c().into_uuid().is_none() && c().into_uuid_string().is_none(), "into_* of {:?}", b);
    check!(c().into_c_string().is_none() && c().into_kw_c_string().is_none() && c().into_uuid_c_string().is_none(), "c strings of {:?}", b);
    check!(b.value_type().is_none() && b.is_congruent_with(None) && ALL_VT.iter().all(|t| !b.matches_type(t.mentat())), "type of {:?}", b);
    Ok(())
}

fn cell(b: &Binding) -> Result<V, String> {
    b.as_scalar().map(V::of).ok_or_else(|| format!("unexpected binding {:?}", b))
}
fn cells<'a>(bs: impl IntoIterator<Item = &'a Binding>) -> Result<Vec<V>, String> {
    bs.into_iter().map(cell).collect()
}

/// All ways of reading a relation give `rows`.
fn rel_reads(rel: &RelResult<Binding>, rows: &[Row], width: usize) -> CaseResult {
    check!(rel.width == width, "a relation of width {} instead of {}", rel.width, width);
    check!(rel.row_count() == rows.len() && rel.is_empty() == rows.is_empty(), "row_count {} is_empty {} of {} rows", rel.row_count(), rel.is_empty(), rows.len());
    for (i, r) in rows.iter().enumerate() {
        let got = rel.row(i).map(cells);
        check!(got == Some(Ok(r.clone())), "row({}) is {:?} instead of {:?}", i, got, r);
    }
    for i in &[rows.len(), rows.len() + 1, rows.len() + 1000] {
        check!(rel.row(*i).is_none(), "row({}) of {} rows is {:?}", i, rows.len(), rel.row(*i));
    }
    let a = rel.rows().map(cells).collect::<Result<Vec<_>, _>>()?;
    check!(a == rows, "rows() gives {:?} instead of {:?}", a, rows);
    let a = rel.clone().into_iter().map(|r| cells(&r)).collect::<Result<Vec<_>, _>>()?;
    check!(a == rows, "into_iter() gives {:?} instead of {:?}", a, rows);
    // One built from the rows by hand is the same, where it can know its width.
    let typed: Vec<Vec<TypedValue>> = rows.iter().map(|r| r.iter().map(|v| v.typed()).collect()).collect();
    let made: RelResult<Binding> = typed.into();
    if rows.is_empty() {
        check!(made.is_empty() && made.row_count() == 0 && made.row(0).is_none() && made.rows().count() == 0 && made.into_iter().count() == 0, "a relation made from no rows has some");
    } else {
        check!(made == *rel, "a relation made from the rows {:?} differs: {:?}", rows, made);
    }
    Ok(())
}

fn arity<B: BindingTuple>(out: &dyn Fn() -> Result<QueryOutput, String>, n: usize, q: &Query, want: Option<&Row>, get: &dyn Fn(B) -> Vec<Binding>) -> CaseResult {
    let width = q.find.len();
    match out()?.into_tuple::<B>() {
        Ok(t) => {
            check!(q.shape == Shape::Tuple && (n == width || n == 0), "into_tuple of arity {} accepted {}", n, q.show());
            let got = t.map(get).map(|bs| cells(&bs)).transpose()?;
            check!(got.as_ref() == want, "into_tuple of arity {} gave {:?} instead of {:?} for {}", n, got, want, q.show());
        }
        Err(e) => check!(q.shape != Shape::Tuple || (n != 0 && n != width), "into_tuple of arity {} failed for {}: {}", n, q.show(), e),
    }
    Ok(())
}

fn bind(s: &mut Src, b: &mut QueryBuilder, name: &str, v: &V, idents: &[(String, i64)]) -> CaseResult {
    match v {
        V::Ref(e) => {
            let i = idents.iter().find(|(_, x)| x == e);
            match (i, s.below(3)) {
                (Some((i, _)), 0) => {
                    b.bind_ref_from_kw(name, keyword(i)).map_err(|e| format!("bind_ref_from_kw {}: {}", i, e))?;
                }
                (_, 1) => {
                    b.bind_value(name, v.typed());
                }
                _ => {
                    if s.bool() {
                        b.bind_ref(name, *e);
                    } else {
                        b.bind_ref(name, mentat::KnownEntid(*e));
                    }
                }
            }
        }
        V::Long(n) => {
            if *n >= i32::min_value() as i64 && *n <= i32::max_value() as i64 && s.chance(1, 3) {
                b.bind_value(name, *n as i32);
            } else if s.bool() {
                b.bind_long(name, *n);
            } else {
                b.bind_value(name, v.typed());
            }
        }
        V::Inst(n) => match s.below(3) {
            0 => {
                b.bind_instant(name, *n);
            }
            1 => {
                b.bind_date_time(name, inst(*n));
            }
            _ => {
                b.bind_value(name, inst(*n));
            }
        },
        V::Bool(x) => {
            b.bind_value(name, *x);
        }
        V::Dbl(x) => {
            b.bind_value(name, x.0);
        }
        V::Str(x) => {
            if s.bool() {
                b.bind_value(name, x.as_str());
            } else {
                b.bind_value(name, x.clone());
            }
        }
        V::Kw(x) => {
            b.bind_value(name, keyword(x));
        }
        V::Uuid(x) => {
            b.bind_value(name, uuid::Uuid::from_bytes(*x));
        }
    }
    Ok(())
}

fn raw(store: &Store, q: &Query) -> Result<QueryOutput, String> {
    store.q_once(q.text().as_str(), q.inputs()).map_err(es)
}

/// The rows of a typed execution, or the error.
fn execute(b: &mut QueryBuilder, how: Shape) -> Result<Vec<Row>, String> {
    let one = |v: &Binding| cell(v).map(|v| vec![v]);
    Ok(match how {
        Shape::Scalar => b.execute_scalar().map_err(es)?.iter().map(one).collect::<Result<_, _>>()?,
        Shape::Coll => b.execute_coll().map_err(es)?.iter().map(one).collect::<Result<_, _>>()?,
        Shape::Tuple => b.execute_tuple().map_err(es)?.iter().map(|r| cells(r)).collect::<Result<_, _>>()?,
        Shape::Rel => b.execute_rel().map_err(es)?.rows().map(cells).collect::<Result<_, _>>()?,
    })
}

fn check_builder(s: &mut Src, store: &mut Store, q: &Query, idents: &[(String, i64)], ctx: &mut Ctx) -> CaseResult {
    let text = q.text();
    let want = raw(store, q).and_then(|o| rows_of(&o.results));
    if !q.order.is_empty() || q.limit.is_some() || want.is_err() {
        ctx.label("ordered, limited or failing");
    }
    // Ties may be broken at will, but the same plan on the same data breaks them in the same way.
    let how = *s.pick(&[q.shape, q.shape, q.shape, Shape::Rel, Shape::Tuple, Shape::Coll, Shape::Scalar]);
    let mut b = QueryBuilder::new(store, text.clone());
    let mut clash = false;
    let order = s.permutation(q.inputs.len());
    for i in &order {
        let (x, v) = &q.inputs[*i];
        let name = default_name(*x);
        if s.chance(1, 8) {
            // Overwritten by the binding that follows.
            bind(s, &mut b, &name, &V::Long(77), idents)?;
        }
        if s.chance(1, 12) {
            ctx.label("unknown ident refused");
            check!(b.bind_ref_from_kw(&name, keyword(":no/such")).is_err(), "bind_ref_from_kw accepted an unknown ident");
        }
        bind(s, &mut b, &name, v, idents)?;
        if s.chance(1, 6) {
            b.bind_type(&name, v.vt().mentat());
        } else if s.chance(1, 20) {
            let t = *s.pick(&ALL_VT);
            b.bind_type(&name, t.mentat());
            clash |= t != v.vt();
        }
    }
    let raw_once = s.chance(1, 4);
    let got = if raw_once {
        b.execute().map_err(es).and_then(|o| {
            check!(shape_of(&o.results) == q.shape, "{} built gave a {:?}", q.show(), shape_of(&o.results));
            rows_of(&o.results)
        })
    } else {
        execute(&mut b, how)
    };
    let fits = raw_once || how == q.shape;
    if clash {
        ctx.label("declared type clashes with value");
        check!(got.is_err(), "{} built with a type that clashes with its value answered {:?}", q.show(), got);
    } else if !fits {
        ctx.label("wrong execution for the shape");
        check!(got.is_err(), "{} executed as {:?} answered {:?}", q.show(), how, got);
    } else {
        match (&want, &got) {
            (Ok(w), Ok(g)) => check!(w == g, "{} built answered {} instead of {}", q.show(), show_rows(&g.iter().collect::<Vec<_>>()), show_rows(&w.iter().collect::<Vec<_>>())),
            (Err(_), Err(_)) => ctx.label("both failed"),
            _ => return Err(format!("{}: built {:?}, raw {:?}", q.show(), got, want)),
        }
    }
    // An execution uses its bindings up; bound again, it answers again.
    if s.chance(1, 3) {
        ctx.label("executed again");
        let bare = b.execute().map_err(es).and_then(|o| rows_of(&o.results));
        for (x, v) in &q.inputs {
            bind(s, &mut b, &default_name(*x), v, idents)?;
        }
        let again = execute(&mut b, q.shape);
        check!(again.is_ok() == want.is_ok() && again.as_ref().ok() == want.as_ref().ok(), "{} built and executed again: {:?}, raw {:?}", q.show(), again, want);
        let none = store.q_once(text.as_str(), QueryInputs::default()).map_err(es).and_then(|o| rows_of(&o.results));
        check!(bare.is_ok() == none.is_ok() && bare.as_ref().ok() == none.as_ref().ok(), "{} built without inputs: {:?}, raw {:?}", q.text(), bare, none);
    }
    let rows = match want {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    if !rows.is_empty() && !q.inputs.is_empty() {
        ctx.nontrivial = true;
    }
    let store = &*store;
    let out = || raw(store, q);
    accessors(&out, q, &rows, ctx)
}

fn accessors(out: &dyn Fn() -> Result<QueryOutput, String>, q: &Query, rows: &[Row], ctx: &mut Ctx) -> CaseResult {
    let width = q.find.len();
    let o = out()?;
    check!(o.len() == rows.len() && o.is_empty() == rows.is_empty(), "{}: len {} is_empty {} with {} rows", q.show(), o.len(), o.is_empty(), rows.len());
    check!(o.spec.expected_column_count() == width, "{}: expects {} columns", q.show(), o.spec.expected_column_count());
    check!(o.results.len() == rows.len() && o.results.is_empty() == rows.is_empty(), "{}: len of the results", q.show());
    let first = rows.get(0);
    let shape_error = |name: &str, shape: Shape, ok: bool| -> CaseResult {
        check!(ok == (q.shape == shape), "{} {} on {}", name, if ok { "succeeded" } else { "failed" }, q.show());
        Ok(())
    };
    let r = out()?.into_scalar();
    shape_error("into_scalar", Shape::Scalar, r.is_ok())?;
    if let Ok(r) = r {
        check!(r.as_ref().map(cell).transpose()?.as_ref() == first.map(|r| &r[0]), "into_scalar of {} gave {:?}", q.show(), r);
    }
    let r = out()?.into_coll();
    shape_error("into_coll", Shape::Coll, r.is_ok())?;
    if let Ok(r) = r {
        check!(cells(&r)? == rows.iter().map(|r| r[0].clone()).collect::<Vec<_>>(), "into_coll of {} gave {:?}", q.show(), r);
    }
    let r = out()?.into_rel();
    shape_error("into_rel", Shape::Rel, r.is_ok())?;
    if let Ok(r) = r {
        rel_reads(&r, rows, width).map_err(|e| format!("{}: {}", q.show(), e))?;
    }
    // The same on bare results.
    let r = out()?.results;
    check!(r.clone().into_scalar().is_ok() == (q.shape == Shape::Scalar), "results.into_scalar");
    check!(r.clone().into_coll().is_ok() == (q.shape == Shape::Coll), "results.into_coll");
    check!(r.clone().into_rel().is_ok() == (q.shape == Shape::Rel), "results.into_rel");
    match r.into_tuple() {
        Ok(t) => {
            check!(q.shape == Shape::Tuple, "results.into_tuple");
            check!(t.as_ref().map(|t| cells(t)).transpose()?.as_ref() == first, "results.into_tuple of {} gave {:?}", q.show(), t);
        }
        Err(_) => check!(q.shape != Shape::Tuple, "results.into_tuple"),
    }
    if q.shape == Shape::Tuple || ctx.labels.len() % 3 == 0 {
        arity::<Vec<Binding>>(out, 0, q, first, &|t| t)?;
        arity::<(Binding,)>(out, 1, q, first, &|t| vec![t.0])?;
        arity::<(Binding, Binding)>(out, 2, q, first, &|t| vec![t.0, t.1])?;
        arity::<(Binding, Binding, Binding)>(out, 3, q, first, &|t| vec![t.0, t.1, t.2])?;
        arity::<(Binding, Binding, Binding, Binding)>(out, 4, q, first, &|t| vec![t.0, t.1, t.2, t.3])?;
        arity::<(Binding, Binding, Binding, Binding, Binding)>(out, 5, q, first, &|t| vec![t.0, t.1, t.2, t.3, t.4])?;
        arity::<(Binding, Binding, Binding, Binding, Binding, Binding)>(out, 6, q, first, &|t| vec![t.0, t.1, t.2, t.3, t.4, t.5])?;
    }
    // Every kind of value through every conversion.
    let mut kinds = std::collections::BTreeSet::new();
    for v in rows.iter().flatten() {
        if kinds.insert(v.vt()) || kinds.len() > 3 {
            conversions(v, &|| q.show())?;
        }
    }
    match out()?.results {
        QueryResults::Rel(r) => structured(r.values.into())?,
        QueryResults::Coll(r) => structured(r.into())?,
        _ => structured(mentat::StructuredMap::default().into())?,
    }
    Ok(())
}

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(2, 4);
    let mut w = world(s, ctx, n)?;
    let db = Db::new(&w.m);
    let ents = TxGen::new(&defs_of(&w.m)).user_ents(&w.m);
    let idents: Vec<(String, i64)> = w.m.idents.iter().map(|(i, e)| (i.clone(), *e)).collect();
    for _ in 0..(if tier.thorough { 20 } else { 8 }) {
        let mut qg = QGen::new(&db, ents.clone());
        qg.input_pct = 40;
        let mut q = match qg.query(s, 1, 4) {
            Some(q) => q,
            None => continue,
        };
        if s.chance(2, 3) {
            dress(s, &mut q, &qg);
        }
        check_shape(&w.store, &db, &q, ctx)?;
        let vs: Vec<V> = q.inputs.iter().map(|(_, v)| v.clone()).collect();
        for v in &vs {
            conversions(v, &|| "input".to_string())?;
        }
        label_query(&q, ctx);
        check_builder(s, &mut w.store, &q, &idents, ctx)?;
    }
    Ok(())
}

fn fixed() -> Vec<(&'static str, fn(&mut Ctx) -> CaseResult)> {
    vec![
        ("every conversion of extreme values", |c| {
            c.nontrivial = true;
            for v in &[V::Long(i64::min_value()), V::Long(-1), V::Inst(-1), V::Inst(-1_000_001), V::Inst(1_599_999_999_999_999), V::s("naïve ☃"), V::s(""), V::kw(":a.b/c"), V::Dbl(D(-0.0)), V::Dbl(D(f64::INFINITY)), V::Uuid([255; 16]), V::Ref(0), V::Bool(false)] {
                conversions(v, &|| "fixed".to_string())?;
            }
            Ok(())
        }),
        ("a relation made from no rows", |c| {
            c.nontrivial = true;
            for w in 0..4 {
                rel_reads(&RelResult::empty(w), &[], w)?;
            }
            let _ = Variable::from_valid_name("?x");
            Ok(())
        }),
    ]
}
