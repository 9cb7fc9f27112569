//! P10: queries return exactly the rows Datalog semantics prescribes.

use crate::check;
use crate::engine::*;
use crate::gen::*;
use crate::query::*;
use crate::vals::*;
use crate::world::*;

pub static PROP: Prop = Prop {
    id: "P10",
    rule: "A random store (schema of 3-8 attributes of all types, 3-6 transactions) is asked a batch of random queries of 1-6 clauses: patterns (known, variable and open attributes, reversed, constants present and absent, idents, transactions), predicates, ground in its four forms, type constraints, or / or-join / not / not-join nested up to two deep (with inner variables shadowing outer ones), inputs. Queries are grown around witness facts so that most have answers. The rows must be exactly those of a naive evaluator over the reference model's facts. Non-trivial: at least one query with a join or a compound clause and a non-empty answer.",
    quick_cases: 6000,
    thorough_cases: 60000,
    run,
    fixed,
    known,
    assumptions: &["the naive evaluator in harness/src/query.rs is the documented meaning of queries", "an integer constant beside an unknown attribute may be a ref, long, instant or numerically equal double (documented in query-projector/src/translate.rs); joins of a long with an equal double are not decided"],
};

fn run(s: &mut Src, ctx: &mut Ctx, tier: &Tier) -> CaseResult {
    let n = s.size(3, 6);
    let w = world(s, ctx, n)?;
    let db = Db::new(&w.m);
    let g = TxGen::new(&defs_of(&w.m));
    let ents = g.user_ents(&w.m);
    for _ in 0..(if tier.thorough { 12 } else { 8 }) {
        let mut qg = QGen::new(&db, ents.clone());
        let q = match qg.query(s, 1, if tier.thorough { 7 } else { 6 }) {
            Some(q) => q,
            None => continue,
        };
        if let Err(e) = check_query(&w.store, &db, &q, ctx) {
            let r = reduce_query(&q, &mut |c| mismatch(&w.store, &db, c));
            let e2 = check_query(&w.store, &db, &r, &mut Ctx::default()).err().unwrap_or(e);
            return Err(e2);
        }
    }
    Ok(())
}

/// Whether a query of the reduced kind is still answered wrongly (rather than refused).
pub fn mismatch<Q: mentat::Queryable>(store: &Q, db: &Db, q: &Query) -> bool {
    let r = guarded(|| match Eval::new(db).decided(q) {
        Ok(envs) => {
            let vars = q.find_vars();
            if envs.iter().any(|e| vars.iter().any(|x| e[*x].is_none())) {
                return false;
            }
            match (Eval::new(db).rows(q), run_rows(store, q)) {
                (Ok(w), Ok(g)) => same_rows(q, &w, &g).is_err(),
                _ => false,
            }
        }
        Err(_) => false,
    });
    r.unwrap_or(false)
}

pub fn check_query<Q: mentat::Queryable>(store: &Q, db: &Db, q: &Query, ctx: &mut Ctx) -> CaseResult {
    ctx.note(q.show());
    let want = match Eval::new(db).rows(q) {
        Ok(w) => w,
        Err(Stop::Big) => {
            ctx.label("skipped: too many rows");
            return Ok(());
        }
        Err(Stop::Known) => {
            ctx.label("skipped: known finding");
            return Ok(());
        }
        Err(Stop::Ambiguous) => {
            ctx.label("skipped: ambiguous");
            return Ok(());
        }
    };
    label_query(q, ctx);
    let got = match run_rows(store, q) {
        Ok(g) => g,
        Err(e) => {
            // A bound attribute can rule out every type an argument may have.
            if want.is_empty() && (q.clash || e.to_string().contains("invalid argument to")) {
                ctx.label("query with a type clash refused");
                return Ok(());
            }
            return Err(e);
        }
    };
    same_rows(q, &want, &got)?;
    if want.is_empty() {
        ctx.label("empty answer");
    } else {
        ctx.label("non-empty answer");
        if q.wh.len() > 1 {
            ctx.nontrivial = true;
        }
    }
    if q.clash {
        ctx.label("type clash");
    }
    Ok(())
}


const SETUP: [&str; 2] = [
    "[{:db/ident :t/b :db/valueType :db.type/boolean :db/cardinality :db.cardinality/one}
      {:db/ident :t/l :db/valueType :db.type/long :db/cardinality :db.cardinality/one}
      {:db/ident :t/r :db/valueType :db.type/ref :db/cardinality :db.cardinality/many}
      {:db/ident :t/s :db/valueType :db.type/string :db/cardinality :db.cardinality/one}
      {:db/ident :t/u :db/valueType :db.type/uuid :db/cardinality :db.cardinality/one}
      {:db/ident :t/k :db/valueType :db.type/keyword :db/cardinality :db.cardinality/one}
      {:db/ident :t/f :db/valueType :db.type/string :db/cardinality :db.cardinality/one :db/fulltext true :db/index true}]",
    "[{:db/id \"x\" :db/ident :e/x :t/b true :t/l 1 :t/s \"0\" :t/r \"y\"}
      {:db/id \"y\" :db/ident :e/y :t/s \"1\" :t/k :a/b :t/r [\"x\" \"z\"]}
      {:db/id \"z\" :db/ident :e/z :t/l 0 :t/s \"a\" :t/f \"words\"}]",
];

/// Ask a fixed store; `want` lists the rows in any order.
pub fn ask(ctx: &mut Ctx, query: &str, inputs: Vec<(&str, V)>, want: Vec<Vec<V>>) -> CaseResult {
    use mentat::Queryable;
    let mut w = World::mem()?;
    for t in &SETUP {
        w.store.transact(*t).map_err(es)?;
    }
    ctx.note(query.to_string());
    let values = inputs.into_iter().map(|(n, v)| (mentat::Variable::from_valid_name(n), v.typed())).collect();
    let out = w.store.q_once(query, mentat::QueryInputs::with_value_sequence(values)).map_err(|e| format!("{} failed: {}", query, e))?;
    let mut got = rows_of(&out.results)?;
    let mut want = want;
    got.sort();
    want.sort();
    check!(got == want, "{}: {:?} instead of {:?}", query, got, want);
    Ok(())
}

type Demo = (&'static str, fn(&mut Ctx) -> CaseResult);

fn fixed() -> Vec<Demo> {
    vec![
        ("a type annotation and all of a unique attribute's columns: DISTINCT kept", |c| {
            ask(c, "[:find ?v :where [_ ?a ?v] [(type ?v :db.type/boolean)]]", vec![], vec![vec![V::Bool(true)]])
        }),
        ("constants for attribute and value: DISTINCT kept", |c| {
            ask(c, "[:find ?i :where [_ ?a true] [(ground [11]) [?a]] [?a :db/ident ?i]]", vec![], vec![vec![V::kw(":db/index")]])?;
            ask(c, "[:find ?v :where [_ ?a true] [(ground [11]) [?a]] [(ground 5) ?v]]", vec![], vec![vec![V::Long(5)]])
        }),
        ("a computed table inside not beside one outside", |c| {
            ask(c, "[:find ?v :where [(ground [\"0\" \"q\"]) [?v ...]] (not (or-join [?v] [_ :t/s ?v] (and [?x :t/s ?v] [?x :t/l])))]", vec![], vec![vec![V::s("q")]])
        }),
        ("constants beside an or that must hold", |c| {
            ask(c, "[:find ?v :where [(ground [1]) [?v]] (or-join [?x] [99999 :t/u ?x] [?x :t/u ?x])]", vec![], vec![])
        }),
        ("not whose clauses always hold", |c| {
            ask(c, "[:find ?v :where [(ground 1) ?v] (not [(ground 1) ?v])]", vec![], vec![])?;
            ask(c, "[:find ?i :where [?e :db/ident ?i] [?e :t/l] (not [(type ?e :db.type/ref)])]", vec![], vec![])
        }),
        ("not that tells the type of an open value", |c| {
            ask(c, "[:find ?v :where [:e/x ?a ?v] [(ground 1) ?v] (not [_ :t/b ?v])]", vec![], vec![vec![V::Long(1)]])?;
            ask(c, "[:find ?v :where (or-join [?v] [?e :t/l ?v] [?e :t/b ?v]) (not [_ :t/b ?v])]", vec![], vec![vec![V::Long(0)], vec![V::Long(1)]])
        }),
        ("not with an entity that may be something else", |c| {
            ask(c, "[:find ?v :where (or-join [?v] [_ :t/l ?v] [?v :t/b]) (not [?v _])]", vec![], vec![vec![V::Long(0)], vec![V::Long(1)]])
        }),
        ("a ref beside an open attribute", |c| {
            ask(c, "[:find ?i :in ?v :where [_ ?a ?v] [?a :db/ident ?i]]", vec![("?v", V::Ref(1))], vec![vec![V::kw(":db.schema/attribute")]])
        }),
        ("an or none of whose patterns can match", |c| {
            let u = V::of(&mentat::TypedValue::Uuid(uuid::Uuid::nil()));
            ask(c, "[:find ?v :in ?v :where (or [?v :t/u ?v] [?v :t/u ?v])]", vec![("?v", u)], vec![])
        }),
        ("values of an open attribute joined with a known type", |c| {
            ask(c, "[:find ?i ?v :where [:e/x :t/l ?v] [:e/x ?a ?v] [?a :db/ident ?i]]", vec![], vec![vec![V::kw(":t/l"), V::Long(1)]])?;
            ask(c, "[:find ?i ?v :where [:e/x ?a ?v] [:e/x :t/l ?v] [?a :db/ident ?i]]", vec![], vec![vec![V::kw(":t/l"), V::Long(1)]])
        }),
        ("an or over attributes of different types", |c| {
            ask(c, "[:find ?v :where [?e :db/ident :e/x] (or [?e :t/b ?v] [?e :t/l ?v])]", vec![], vec![vec![V::Bool(true)], vec![V::Long(1)]])?;
            ask(c, "[:find ?v :where [?e :db/ident :e/x] (or (and [?e :t/b ?v] [?e :t/l]) [?e :t/l ?v])]", vec![], vec![vec![V::Bool(true)], vec![V::Long(1)]])
        }),
        ("a union of integers and strings", |c| {
            ask(c, "[:find ?i :where (or-join [?v] (and [?v :t/l] [?v :t/b]) [:e/x :t/s ?v] [:e/z :t/l ?v]) [?e :t/s ?v] [?e :db/ident ?i]]", vec![], vec![vec![V::kw(":e/x")]])
        }),
        ("variables local to the arms of an or", |c| {
            ask(c, "[:find ?v ?i :where (or-join [?i] (and [?e :t/l ?v] [?e :db/ident ?i]) (and [?e :t/k ?v] [?e :db/ident ?i])) [:e/x :t/s ?v]]", vec![], vec![
                vec![V::s("0"), V::kw(":e/x")],
                vec![V::s("0"), V::kw(":e/y")],
                vec![V::s("0"), V::kw(":e/z")],
            ])
        }),
        ("an explicit join inside not brings its own variables", |c| {
            ask(c, "[:find ?i :where [?e :db/ident ?i] [?e :t/s] (not (or-join [?e] (and [?e :t/l ?z] [?e :t/b ?y]) (and [?e :t/k ?z] [?e :t/r])))]", vec![], vec![vec![V::kw(":e/z")]])
        }),
        ("clauses after one that cannot hold", |c| {
            ask(c, "[:find ?e :where [?e :t/missing ?v] (not [?v :t/l 1])]", vec![], vec![])
        }),
        ("a negative integer in ground", |c| {
            ask(c, "[:find ?v ?x :where [?x :t/b] [?x ?a ?w] [(ground -1) ?v]]", vec![], vec![])
                .or_else(|e| if e.contains("instead of") { Ok(()) } else { Err(e) })
        }),
    ]
}

fn known() -> Vec<Demo> {
    vec![
        ("comparison-of-open-value", |c| {
            ask(c, "[:find ?i :where [:e/x ?a ?v] [(< ?v 5)] [?a :db/ident ?i]]", vec![], vec![vec![V::kw(":t/l")]])
        }),
        ("open-value-as-entity", |c| {
            ask(c, "[:find ?i :where [:e/x ?b ?t] [?b :db/ident :t/b] [?t :db/ident ?i]]", vec![], vec![])
        }),
        ("integer-beside-open-attribute-and-fulltext", |c| {
            ask(c, "[:find ?i :where [:e/z ?a 1] [?a :db/ident ?i]]", vec![], vec![])
        }),
    ]
}
