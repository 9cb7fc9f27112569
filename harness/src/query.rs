//! Queries: syntax tree, printer, naive evaluator over a set of facts, and generator.

use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::vals::*;
use mentat::{Binding, QueryInputs, QueryResults, Queryable, Variable};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type Row = Vec<V>;
pub type Env = Vec<Option<V>>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tm {
    Var(usize),
    Blank,
    /// A constant. Longs and refs print alike; what is meant depends on the place.
    C(V),
    Ident(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cl {
    Pat { e: Tm, a: Tm, v: Tm, tx: Tm, rev: bool, src: bool },
    Pred { op: &'static str, l: Tm, r: Tm },
    /// form: 0 scalar, 1 tuple, 2 collection, 3 relation
    Ground { form: u8, vars: Vec<Option<usize>>, rows: Vec<Vec<Tm>> },
    Type { x: usize, t: Vt },
    Or { join: Option<Vec<usize>>, legs: Vec<Vec<Cl>> },
    Not { join: Option<Vec<usize>>, cls: Vec<Cl> },
    TxIds { lo: Tm, hi: Tm, x: usize, rel: bool },
    TxData { tx: Tm, b: Vec<Tm> },
    Full { a: Tm, text: Tm, b: Vec<Tm> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    Var(usize),
    Agg(&'static str, usize),
    The(usize),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Shape {
    Rel,
    Tuple,
    Coll,
    Scalar,
}

#[derive(Clone, Debug)]
pub struct Query {
    pub shape: Shape,
    pub find: Vec<El>,
    pub with: Vec<usize>,
    pub inputs: Vec<(usize, V)>,
    pub order: Vec<(usize, bool)>,
    pub limit: Option<Limit>,
    pub wh: Vec<Cl>,
    pub nvars: usize,
    /// Some join or constant cannot match by type: an error is as good as an empty answer.
    pub clash: bool,
}

#[derive(Clone, Debug)]
pub enum Limit {
    N(u64),
    /// A limit variable, itself an input.
    Var(usize),
}

// ---- printing ----

pub fn default_name(x: usize) -> String {
    format!("?v{}", x)
}

pub struct Names<'a>(pub &'a dyn Fn(usize) -> String);

impl<'a> Names<'a> {
    pub fn tm(&self, t: &Tm) -> String {
        match t {
            Tm::Var(x) => (self.0)(*x),
            Tm::Blank => "_".into(),
            Tm::C(v) => v.edn(),
            Tm::Ident(i) => i.clone(),
        }
    }
    fn opt(&self, x: &Option<usize>) -> String {
        x.map_or("_".into(), |x| (self.0)(x))
    }
    pub fn cls(&self, cls: &[Cl]) -> String {
        cls.iter().map(|c| self.cl(c)).collect::<Vec<_>>().join(" ")
    }
    pub fn cl(&self, c: &Cl) -> String {
        match c {
            Cl::Pat { e, a, v, tx, rev, src } => {
                let (e, v) = if *rev { (v, e) } else { (e, v) };
                let attr = match (a, rev) {
                    (Tm::Ident(i), true) => ARef::rev(i).edn(),
                    (a, _) => self.tm(a),
                };
                let mut o = format!("[{}{} {}", if *src { "$ " } else { "" }, self.tm(e), attr);
                if *v != Tm::Blank || *tx != Tm::Blank || *rev {
                    o.push_str(&format!(" {}", self.tm(v)));
                }
                if *tx != Tm::Blank {
                    o.push_str(&format!(" {}", self.tm(tx)));
                }
                o + "]"
            }
            Cl::Pred { op, l, r } => format!("[({} {} {})]", op, self.tm(l), self.tm(r)),
            Cl::Ground { form, vars, rows } => {
                let row = |r: &[Tm]| r.iter().map(|t| self.tm(t)).collect::<Vec<_>>().join(" ");
                let names = vars.iter().map(|v| self.opt(v)).collect::<Vec<_>>().join(" ");
                match form {
                    0 => format!("[(ground {}) {}]", row(&rows[0]), names),
                    1 => format!("[(ground [{}]) [{}]]", row(&rows[0]), names),
                    2 => format!("[(ground [{}]) [{} ...]]", rows.iter().map(|r| row(r)).collect::<Vec<_>>().join(" "), names),
                    _ => format!("[(ground [{}]) [[{}]]]", rows.iter().map(|r| format!("[{}]", row(r))).collect::<Vec<_>>().join(" "), names),
                }
            }
            Cl::Type { x, t } => format!("[(type {} {})]", (self.0)(*x), t.ident()),
            Cl::Or { join, legs } => {
                let head = match join {
                    Some(j) => format!("(or-join [{}]", j.iter().map(|x| (self.0)(*x)).collect::<Vec<_>>().join(" ")),
                    None => "(or".to_string(),
                };
                let body = legs.iter().map(|l| if l.len() == 1 { self.cl(&l[0]) } else { format!("(and {})", self.cls(l)) }).collect::<Vec<_>>().join(" ");
                format!("{} {})", head, body)
            }
            Cl::Not { join, cls } => match join {
                Some(j) => format!("(not-join [{}] {})", j.iter().map(|x| (self.0)(*x)).collect::<Vec<_>>().join(" "), self.cls(cls)),
                None => format!("(not {})", self.cls(cls)),
            },
            Cl::TxIds { lo, hi, x, rel } => {
                let b = if *rel { format!("[[{}]]", (self.0)(*x)) } else { format!("[{} ...]", (self.0)(*x)) };
                format!("[(tx-ids $ {} {}) {}]", self.tm(lo), self.tm(hi), b)
            }
            Cl::TxData { tx, b } => format!("[(tx-data $ {}) [[{}]]]", self.tm(tx), b.iter().map(|t| self.tm(t)).collect::<Vec<_>>().join(" ")),
            Cl::Full { a, text, b } => format!("[(fulltext $ {} {}) [[{}]]]", self.tm(a), self.tm(text), b.iter().map(|t| self.tm(t)).collect::<Vec<_>>().join(" ")),
        }
    }
    pub fn el(&self, e: &El) -> String {
        match e {
            El::Var(x) => (self.0)(*x),
            El::Agg(f, x) => format!("({} {})", f, (self.0)(*x)),
            El::The(x) => format!("(the {})", (self.0)(*x)),
        }
    }
    pub fn query(&self, q: &Query) -> String {
        let els = q.find.iter().map(|e| self.el(e)).collect::<Vec<_>>().join(" ");
        let mut o = match q.shape {
            Shape::Rel => format!("[:find {}", els),
            Shape::Tuple => format!("[:find [{}]", els),
            Shape::Coll => format!("[:find [{} ...]", els),
            Shape::Scalar => format!("[:find {} .", els),
        };
        if !q.with.is_empty() {
            o.push_str(&format!(" :with {}", q.with.iter().map(|x| (self.0)(*x)).collect::<Vec<_>>().join(" ")));
        }
        if !q.inputs.is_empty() {
            o.push_str(&format!(" :in {}", q.inputs.iter().map(|(x, _)| (self.0)(*x)).collect::<Vec<_>>().join(" ")));
        }
        o.push_str(&format!(" :where {}", self.cls(&q.wh)));
        if !q.order.is_empty() {
            o.push_str(" :order");
            for (i, (x, asc)) in q.order.iter().enumerate() {
                if *asc && i % 2 == 1 {
                    o.push_str(&format!(" {}", (self.0)(*x)));
                } else {
                    o.push_str(&format!(" ({} {})", if *asc { "asc" } else { "desc" }, (self.0)(*x)));
                }
            }
        }
        match &q.limit {
            Some(Limit::N(n)) => o.push_str(&format!(" :limit {}", n)),
            Some(Limit::Var(x)) => o.push_str(&format!(" :limit {}", (self.0)(*x))),
            None => {}
        }
        o + "]"
    }
}

impl Query {
    pub fn text(&self) -> String {
        Names(&default_name).query(self)
    }
    pub fn inputs(&self) -> QueryInputs {
        self.inputs_named(&default_name)
    }
    pub fn inputs_named(&self, name: &dyn Fn(usize) -> String) -> QueryInputs {
        QueryInputs::with_value_sequence(self.inputs.iter().map(|(x, v)| (Variable::from_valid_name(&name(*x)), v.typed())).collect())
    }
    pub fn show(&self) -> String {
        let mut o = self.text();
        for (x, v) in &self.inputs {
            o.push_str(&format!("  {}={}", default_name(*x), v));
        }
        o
    }
    pub fn find_vars(&self) -> Vec<usize> {
        self.find
            .iter()
            .map(|e| match e {
                El::Var(x) | El::Agg(_, x) | El::The(x) => *x,
            })
            .collect()
    }
}

pub fn vars_of(cls: &[Cl], out: &mut BTreeSet<usize>) {
    fn tm(t: &Tm, out: &mut BTreeSet<usize>) {
        if let Tm::Var(x) = t {
            out.insert(*x);
        }
    }
    for c in cls {
        match c {
            Cl::Pat { e, a, v, tx, .. } => {
                for t in &[e, a, v, tx] {
                    tm(t, out);
                }
            }
            Cl::Pred { l, r, .. } => {
                tm(l, out);
                tm(r, out);
            }
            Cl::Ground { vars, .. } => out.extend(vars.iter().filter_map(|x| *x)),
            Cl::Type { x, .. } => {
                out.insert(*x);
            }
            Cl::Or { legs, .. } => {
                for l in legs {
                    vars_of(l, out);
                }
            }
            Cl::Not { cls, .. } => vars_of(cls, out),
            Cl::TxIds { lo, hi, x, .. } => {
                tm(lo, out);
                tm(hi, out);
                out.insert(*x);
            }
            Cl::TxData { tx, b } => {
                tm(tx, out);
                for t in b {
                    tm(t, out);
                }
            }
            Cl::Full { a, text, b } => {
                tm(a, out);
                tm(text, out);
                for t in b {
                    tm(t, out);
                }
            }
        }
    }
}

// ---- evaluation ----

pub struct Db {
    pub facts: Vec<(i64, i64, V, i64)>,
    pub by_e: HashMap<i64, Vec<usize>>,
    pub by_a: HashMap<i64, Vec<usize>>,
    pub by_v: HashMap<V, Vec<usize>>,
    pub vt: BTreeMap<i64, Vt>,
    pub fts: BTreeSet<i64>,
    /// The strings in the fulltext table.
    pub rows: BTreeSet<String>,
    pub idents: BTreeMap<String, i64>,
    pub log: BTreeMap<i64, BTreeSet<(i64, i64, V, bool)>>,
}

impl Db {
    pub fn new(m: &Model) -> Db {
        let mut d = Db {
            facts: m.facts.iter().map(|((e, a, v), tx)| (*e, *a, v.clone(), *tx)).collect(),
            by_e: HashMap::new(),
            by_a: HashMap::new(),
            by_v: HashMap::new(),
            vt: m.schema.iter().map(|(e, a)| (*e, a.vt)).collect(),
            fts: m.fts(),
            idents: m.idents.iter().map(|(k, e)| (k.clone(), *e)).collect(),
            log: m.log.clone(),
            rows: BTreeSet::new(),
        };
        let fts = d.fts.clone();
        for (_, a, v, _) in m.log.values().flatten() {
            if let (true, V::Str(s)) = (fts.contains(a), v) {
                d.rows.insert(s.clone());
            }
        }
        for (i, (e, a, v, _)) in d.facts.iter().enumerate() {
            d.by_e.entry(*e).or_default().push(i);
            d.by_a.entry(*a).or_default().push(i);
            d.by_v.entry(v.clone()).or_default().push(i);
        }
        d
    }
}

#[derive(Debug)]
pub enum Stop {
    /// Too many intermediate rows: not decided.
    Big,
    /// A long met a numerically equal double, which the two types' shared tag leaves open.
    Ambiguous,
    /// A known finding blurs the answer.
    Known,
}

pub const MAX_ROWS: usize = 4_000;

pub struct Eval<'a> {
    pub db: &'a Db,
    work: usize,
    /// Let values of other types equal refs (and rows of the fulltext table equal integers) where
    /// the known findings do.
    loose: bool,
    /// A loose equality held somewhere.
    met: std::cell::Cell<bool>,
    /// Inputs that are keywords: in an entity place they name an entity, which isn't modelled.
    kw: BTreeSet<usize>,
}

fn without_nots(cls: &[Cl]) -> Vec<Cl> {
    cls.iter()
        .filter(|c| !matches!(c, Cl::Not { .. }))
        .map(|c| match c {
            Cl::Or { join, legs } => Cl::Or { join: join.clone(), legs: legs.iter().map(|l| without_nots(l)).collect() },
            c => c.clone(),
        })
        .collect()
}

fn has_not(cls: &[Cl]) -> bool {
    cls.iter().any(|c| match c {
        Cl::Not { .. } => true,
        Cl::Or { legs, .. } => legs.iter().any(|l| has_not(l)),
        _ => false,
    })
}

/// Whether a query falls under a known finding: a value beside an open attribute joined with an
/// entity, or an integer constant beside an open attribute.
pub fn is_touchy(q: &Query) -> bool {
    fn walk(cls: &[Cl], open: &mut BTreeSet<usize>, ent: &mut BTreeSet<usize>, int: &mut bool) {
        for c in cls {
            match c {
                Cl::Pat { e, a, v, tx, .. } => {
                    for t in &[e, a, tx] {
                        if let Tm::Var(x) = t {
                            ent.insert(*x);
                        }
                    }
                    if let Tm::Var(_) | Tm::Blank = a {
                        match v {
                            Tm::Var(x) => {
                                open.insert(*x);
                            }
                            Tm::C(V::Long(_)) | Tm::C(V::Ref(_)) => *int = true,
                            _ => {}
                        }
                    }
                }
                Cl::Or { legs, .. } => legs.iter().for_each(|l| walk(l, open, ent, int)),
                Cl::Not { cls, .. } => walk(cls, open, ent, int),
                Cl::TxData { b, .. } => {
                    for (i, t) in b.iter().enumerate() {
                        if let Tm::Var(x) = t {
                            if i == 2 { &mut *open } else { &mut *ent }.insert(*x);
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let (mut open, mut ent, mut int) = (BTreeSet::new(), BTreeSet::new(), false);
    walk(&q.wh, &mut open, &mut ent, &mut int);
    int || open.intersection(&ent).next().is_some()
}

fn num_cmp(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    match (a, b) {
        (V::Long(x), V::Long(y)) => Some(x.cmp(y)),
        (V::Dbl(x), V::Dbl(y)) => x.0.partial_cmp(&y.0),
        (V::Inst(x), V::Inst(y)) => Some(x.cmp(y)),
        (V::Long(x), V::Dbl(y)) => {
            let y = y.0;
            if y.is_nan() {
                return None;
            }
            // Exact: compare with the integer part, then the fraction.
            if y >= 9.3e18 {
                return Some(Less);
            }
            if y <= -9.3e18 {
                return Some(Greater);
            }
            let t = y.trunc();
            let o = (*x as i128).cmp(&(t as i128));
            Some(if o != Equal {
                o
            } else if y > t {
                Less
            } else if y < t {
                Greater
            } else {
                Equal
            })
        }
        (V::Dbl(_), V::Long(_)) => num_cmp(b, a).map(|o| o.reverse()),
        _ => None,
    }
}

/// Compare numbers and instants; None where not comparable.
pub fn compare(a: &V, b: &V) -> Option<std::cmp::Ordering> {
    num_cmp(a, b)
}

impl<'a> Eval<'a> {
    pub fn new(db: &'a Db) -> Eval<'a> {
        Eval { db, work: 0, loose: false, met: std::cell::Cell::new(false), kw: BTreeSet::new() }
    }

    /// Whether two values might have the same representation as numbers.
    fn loosely(&self, a: &V, b: &V) -> bool {
        // The row of a string in the fulltext table can be any.
        let row = |v: &V| match v {
            V::Str(s) => self.db.rows.contains(s),
            _ => false,
        };
        let number = |v: &V| match v {
            V::Ref(n) | V::Long(n) | V::Inst(n) => Some(*n as f64),
            V::Bool(b) => Some(*b as i64 as f64),
            V::Dbl(d) => Some(d.0),
            V::Str(s) => s.trim().parse::<f64>().ok(),
            _ => None,
        };
        let among = |x: Option<f64>| x.map_or(false, |x| x >= 1.0 && x <= 1000.0);
        let r = match (number(a), number(b)) {
            (Some(x), Some(y)) if x == y => true,
            (x, y) => row(a) && (row(b) || among(y)) || row(b) && among(x),
        };
        if r {
            self.met.set(true);
        }
        r
    }

    fn eq(&self, a: &V, b: &V) -> Result<bool, Stop> {
        if a == b {
            return Ok(true);
        }
        match (a, b) {
            (V::Long(_), V::Dbl(_)) | (V::Dbl(_), V::Long(_)) if num_cmp(a, b) == Some(std::cmp::Ordering::Equal) => Err(Stop::Ambiguous),
            _ if self.loose && a.vt() != b.vt() => Ok(self.loosely(a, b)),
            _ => Ok(false),
        }
    }

    fn bind(&self, env: &mut Env, x: usize, v: &V) -> Result<bool, Stop> {
        match &env[x] {
            Some(w) => self.eq(w, v),
            None => {
                env[x] = Some(v.clone());
                Ok(true)
            }
        }
    }

    /// Match an entity place (e, a or tx) against an id.
    fn place(&self, t: &Tm, id: i64, env: &mut Env) -> Result<bool, Stop> {
        match t {
            Tm::Blank => Ok(true),
            Tm::C(V::Ref(n)) | Tm::C(V::Long(n)) => Ok(*n == id),
            Tm::C(_) => Ok(false),
            Tm::Ident(i) => Ok(self.db.idents.get(i) == Some(&id)),
            Tm::Var(x) => self.bind(env, *x, &V::Ref(id)),
        }
    }

    fn value(&self, t: &Tm, v: &V, known_attr: Option<Vt>, env: &mut Env) -> Result<bool, Stop> {
        match t {
            Tm::Blank => Ok(true),
            Tm::Var(x) => self.bind(env, *x, v),
            Tm::Ident(i) => match known_attr {
                Some(Vt::Ref) => Ok(self.db.idents.get(i).map(|e| V::Ref(*e)).as_ref() == Some(v)),
                _ => Ok(&V::kw(i) == v),
            },
            Tm::C(V::Ref(n)) | Tm::C(V::Long(n)) => match known_attr {
                Some(Vt::Ref) => Ok(&V::Ref(*n) == v),
                Some(Vt::Long) => Ok(&V::Long(*n) == v),
                Some(Vt::Dbl) => Ok(&V::Dbl(D(*n as f64)) == v),
                Some(_) => Ok(false),
                // With the attribute unknown an integer may be a ref, a long, an instant or a
                // (numerically equal) double; never a boolean.
                None => match v {
                    V::Ref(m) | V::Long(m) | V::Inst(m) => Ok(m == n),
                    V::Dbl(_) => Ok(num_cmp(&V::Long(*n), v) == Some(std::cmp::Ordering::Equal)),
                    V::Str(_) => Ok(self.loose && self.loosely(&V::Long(*n), v)),
                    _ => Ok(false),
                },
            },
            Tm::C(V::Kw(k)) => self.value(&Tm::Ident(k.clone()), v, known_attr, env),
            Tm::C(c) => self.eq(c, v),
        }
    }

    fn resolve(&self, t: &Tm, env: &Env) -> Option<i64> {
        match t {
            Tm::C(V::Ref(n)) | Tm::C(V::Long(n)) => Some(*n),
            Tm::Ident(i) => Some(*self.db.idents.get(i).unwrap_or(&-1)),
            Tm::Var(x) => match &env[*x] {
                Some(V::Ref(n)) => Some(*n),
                _ if self.loose => None,
                // Bound to something else: matches nothing.
                Some(_) => Some(-1),
                None => None,
            },
            _ => None,
        }
    }

    fn pattern(&mut self, c: &Cl, envs: &[Env], fixed: &BTreeSet<usize>) -> Result<Vec<Env>, Stop> {
        let (e, a, v, tx) = match c {
            Cl::Pat { e, a, v, tx, .. } => (e, a, v, tx),
            _ => unreachable!(),
        };
        let attr_fixed = match a {
            Tm::Var(x) => fixed.contains(x),
            Tm::Blank => false,
            _ => true,
        };
        for t in &[e, a, tx] {
            if let Tm::Var(x) = t {
                if self.kw.contains(x) {
                    return Err(Stop::Ambiguous);
                }
            }
        }
        let none: Vec<usize> = vec![];
        let mut out = vec![];
        let all: Vec<usize> = (0..self.db.facts.len()).collect();
        for env in envs {
            let re = self.resolve(e, env);
            let ra = self.resolve(a, env);
            let cand: &[usize] = match (re, ra) {
                (Some(x), _) => self.db.by_e.get(&x).unwrap_or(&none),
                (None, _) => {
                    let byv = match v {
                        Tm::Var(x) => match &env[*x] {
                            Some(V::Long(_)) | Some(V::Dbl(_)) | None => None,
                            _ if self.loose => None,
                            Some(w) => Some(self.db.by_v.get(w).unwrap_or(&none)),
                        },
                        _ => None,
                    };
                    match (byv, ra) {
                        (Some(l), _) => l,
                        (None, Some(x)) => self.db.by_a.get(&x).unwrap_or(&none),
                        _ => &all,
                    }
                }
            };
            self.work += cand.len();
            if self.work > 400_000 {
                return Err(Stop::Big);
            }
            for i in cand {
                let (fe, fa, fv, ft) = &self.db.facts[*i];
                let mut n = env.clone();
                let known = if attr_fixed { self.db.vt.get(fa).cloned() } else { None };
                if self.place(e, *fe, &mut n)? && self.place(a, *fa, &mut n)? && self.value(v, fv, known, &mut n)? && self.place(tx, *ft, &mut n)? {
                    out.push(n);
                }
                if out.len() > MAX_ROWS {
                    return Err(Stop::Big);
                }
            }
        }
        out.sort();
        out.dedup();
        Ok(out)
    }

    fn term(&self, t: &Tm, env: &Env, like: Option<Vt>) -> Option<V> {
        match t {
            Tm::Var(x) => env[*x].clone(),
            Tm::C(V::Long(n)) if like == Some(Vt::Ref) => Some(V::Ref(*n)),
            Tm::C(v) => Some(v.clone()),
            Tm::Ident(i) => Some(match self.db.idents.get(i) {
                Some(e) if like != Some(Vt::Kw) => V::Ref(*e),
                _ => V::kw(i),
            }),
            Tm::Blank => None,
        }
    }

    pub fn pred(&self, op: &str, l: &V, r: &V) -> bool {
        use std::cmp::Ordering::*;
        match op {
            "differ" | "unpermute" | "tx-after" | "tx-before" => match (l, r) {
                (V::Ref(a), V::Ref(b)) => match op {
                    "differ" => a != b,
                    "unpermute" | "tx-before" => a < b,
                    _ => a > b,
                },
                // Whatever the representations are, take it to hold: that's enough to tell.
                _ if self.loose => {
                    self.met.set(true);
                    true
                }
                _ => false,
            },
            _ => match (num_cmp(l, r), op) {
                (None, _) => false,
                (Some(o), "<") => o == Less,
                (Some(o), "<=") => o != Greater,
                (Some(o), ">") => o == Greater,
                (Some(o), ">=") => o != Less,
                (Some(o), _) => o != Equal,
            },
        }
    }

    /// All extensions of `envs` under which every clause holds.
    pub fn clauses(&mut self, cls: &[Cl], envs: Vec<Env>, fixed0: &BTreeSet<usize>) -> Result<Vec<Env>, Stop> {
        let mut fixed = fixed0.clone();
        let mut envs = envs;
        let mut i = 0;
        let mut types: Vec<(usize, Vt)> = vec![];
        while i < cls.len() {
            if let Cl::Pat { .. } = cls[i] {
                let mut run: Vec<&Cl> = vec![];
                while i < cls.len() {
                    match &cls[i] {
                        Cl::Pat { .. } => run.push(&cls[i]),
                        Cl::Type { x, t } => types.push((*x, *t)),
                        _ => break,
                    }
                    i += 1;
                }
                while !run.is_empty() {
                    let bound: Vec<bool> = match envs.first() {
                        None => return Ok(vec![]),
                        Some(e) => e.iter().map(|v| v.is_some()).collect(),
                    };
                    let score = |c: &Cl| -> i32 {
                        let k = |t: &Tm, w: i32| match t {
                            Tm::Var(x) => if bound[*x] { w } else { 0 },
                            Tm::Blank => 0,
                            _ => w,
                        };
                        match c {
                            Cl::Pat { e, a, v, tx, .. } => k(e, 10) + k(a, 3) + k(v, 6) + k(tx, 1),
                            _ => 0,
                        }
                    };
                    let best = (0..run.len()).max_by_key(|i| (score(run[*i]), -(*i as i32))).unwrap();
                    let c = run.remove(best);
                    envs = self.pattern(c, &envs, &fixed)?;
                }
                continue;
            }
            envs = self.clause(&cls[i], envs, &mut fixed, &mut types)?;
            i += 1;
        }
        for (x, t) in types {
            let loose = self.loose && t == Vt::Ref;
            envs.retain(|e| e[x].as_ref().map_or(false, |v| loose || v.vt() == t));
        }
        Ok(envs)
    }

    fn clause(&mut self, c: &Cl, envs: Vec<Env>, fixed: &mut BTreeSet<usize>, types: &mut Vec<(usize, Vt)>) -> Result<Vec<Env>, Stop> {
        let mut out = vec![];
        match c {
            Cl::Pat { .. } => return self.pattern(c, &envs, fixed),
            Cl::Type { x, t } => {
                types.push((*x, *t));
                return Ok(envs);
            }
            Cl::Pred { op, l, r } => {
                let refs = ["differ", "unpermute", "tx-after", "tx-before"].contains(op);
                let like = if refs { Some(Vt::Ref) } else { None };
                for e in envs {
                    if let (Some(a), Some(b)) = (self.term(l, &e, like), self.term(r, &e, like)) {
                        if self.pred(op, &a, &b) {
                            out.push(e);
                        }
                    }
                }
            }
            Cl::Ground { form, vars, rows } => {
                if *form < 2 {
                    fixed.extend(vars.iter().filter_map(|x| *x));
                }
                for e in &envs {
                    for r in rows {
                        let mut n = e.clone();
                        let mut ok = true;
                        for (x, t) in vars.iter().zip(r.iter()) {
                            if let Some(x) = x {
                                let v = match t {
                                    Tm::Ident(i) => V::Ref(*self.db.idents.get(i).unwrap_or(&-1)),
                                    Tm::C(v) => v.clone(),
                                    _ => unreachable!(),
                                };
                                if !self.bind(&mut n, *x, &v)? {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            out.push(n);
                        }
                    }
                    if out.len() > MAX_ROWS {
                        return Err(Stop::Big);
                    }
                }
            }
            Cl::Or { join, legs } => {
                let vars: Vec<usize> = match join {
                    Some(j) => j.clone(),
                    None => {
                        let mut s = BTreeSet::new();
                        vars_of(std::slice::from_ref(c), &mut s);
                        s.into_iter().collect()
                    }
                };
                let sub: BTreeSet<usize> = fixed.iter().cloned().filter(|x| vars.contains(x)).collect();
                // Legs see only the joined variables.
                let width = envs.first().map_or(0, |e| e.len());
                let mut seen: BTreeMap<Vec<Option<V>>, Vec<Vec<Option<V>>>> = BTreeMap::new();
                for e in &envs {
                    let key: Vec<Option<V>> = vars.iter().map(|x| e[*x].clone()).collect();
                    if !seen.contains_key(&key) {
                        let mut start: Env = vec![None; width];
                        for (x, v) in vars.iter().zip(key.iter()) {
                            start[*x] = v.clone();
                        }
                        let mut got: BTreeSet<Vec<Option<V>>> = BTreeSet::new();
                        for l in legs {
                            for r in self.clauses(l, vec![start.clone()], &sub)? {
                                got.insert(vars.iter().map(|x| r[*x].clone()).collect());
                            }
                        }
                        seen.insert(key.clone(), got.into_iter().collect());
                    }
                    for r in &seen[&key] {
                        let mut n = e.clone();
                        for (x, v) in vars.iter().zip(r.iter()) {
                            n[*x] = v.clone();
                        }
                        out.push(n);
                    }
                    if out.len() > MAX_ROWS {
                        return Err(Stop::Big);
                    }
                }
            }
            Cl::Not { join, cls } => {
                let vars: Vec<usize> = match join {
                    Some(j) => j.clone(),
                    None => {
                        let mut s = BTreeSet::new();
                        vars_of(cls, &mut s);
                        s.into_iter().collect()
                    }
                };
                let sub: BTreeSet<usize> = fixed.iter().cloned().filter(|x| vars.contains(x)).collect();
                let mut seen: BTreeMap<Vec<Option<V>>, bool> = BTreeMap::new();
                for e in envs {
                    let key: Vec<Option<V>> = vars.iter().map(|x| e[*x].clone()).collect();
                    let hit = match seen.get(&key) {
                        Some(h) => *h,
                        None => {
                            let mut start: Env = vec![None; e.len()];
                            for (x, v) in vars.iter().zip(key.iter()) {
                                start[*x] = v.clone();
                            }
                            let h = !self.clauses(cls, vec![start], &sub)?.is_empty();
                            seen.insert(key, h);
                            h
                        }
                    };
                    if !hit {
                        out.push(e);
                    }
                }
            }
            Cl::TxIds { lo, hi, x, .. } => {
                self.tx_terms(&[lo, hi], &envs)?;
                for e in &envs {
                    if let (Some(V::Ref(lo)), Some(V::Ref(hi))) = (self.term(lo, e, Some(Vt::Ref)), self.term(hi, e, Some(Vt::Ref))) {
                        if lo < hi {
                            for (t, _) in self.db.log.range(lo..hi) {
                                let mut n = e.clone();
                                if self.bind(&mut n, *x, &V::Ref(*t))? {
                                    out.push(n);
                                }
                            }
                        }
                    }
                }
            }
            Cl::TxData { tx, b } => {
                self.tx_terms(&[tx], &envs)?;
                for e in &envs {
                    if let Some(V::Ref(t)) = self.term(tx, e, Some(Vt::Ref)) {
                        if let Some(ds) = self.db.log.get(&t) {
                            for (de, da, dv, added) in ds {
                                let mut n = e.clone();
                                let vals = [V::Ref(*de), V::Ref(*da), dv.clone(), V::Ref(t), V::Bool(*added)];
                                let mut ok = true;
                                for (tm, v) in b.iter().zip(vals.iter()) {
                                    if let Tm::Var(x) = tm {
                                        if !self.bind(&mut n, *x, v)? {
                                            ok = false;
                                            break;
                                        }
                                    }
                                }
                                if ok {
                                    out.push(n);
                                }
                            }
                        }
                    }
                    if out.len() > MAX_ROWS {
                        return Err(Stop::Big);
                    }
                }
            }
            Cl::Full { a, text, b } => {
                for e in &envs {
                    let attr = match self.resolve(a, e) {
                        Some(x) => x,
                        None => continue,
                    };
                    let want = match self.term(text, e, Some(Vt::Kw)) {
                        Some(V::Str(s)) => s,
                        _ => continue,
                    };
                    if !self.db.fts.contains(&attr) {
                        continue;
                    }
                    for i in self.db.by_a.get(&attr).map(|v| v.as_slice()).unwrap_or(&[]) {
                        let (fe, _, fv, ft) = &self.db.facts[*i];
                        match fv {
                            V::Str(s) if fts_match(&want, s) => (),
                            _ => continue,
                        }
                        let mut n = e.clone();
                        let vals = [V::Ref(*fe), fv.clone(), V::Ref(*ft), V::Dbl(D(0.0))];
                        let mut ok = true;
                        for (tm, v) in b.iter().zip(vals.iter()) {
                            if let Tm::Var(x) = tm {
                                if !self.bind(&mut n, *x, v)? {
                                    ok = false;
                                    break;
                                }
                            }
                        }
                        if ok {
                            out.push(n);
                        }
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        Ok(out)
    }

    /// A transaction given by a value that need not be a ref: a known finding.
    fn tx_terms(&self, ts: &[&Tm], envs: &[Env]) -> Result<(), Stop> {
        if self.loose {
            for t in ts {
                if let Tm::Var(x) = t {
                    if envs.iter().any(|e| !matches!(e[*x], Some(V::Ref(_)))) {
                        return Err(Stop::Known);
                    }
                }
            }
        }
        Ok(())
    }

    /// The distinct bindings of all variables, if no known finding blurs them.
    pub fn decided(&mut self, q: &Query) -> Result<Vec<Env>, Stop> {
        let envs = self.solve(q)?;
        if is_touchy(q) {
            let mut loose = Eval::new(self.db);
            loose.loose = true;
            if loose.solve(q)? != envs || (has_not(&q.wh) && loose.met.get()) {
                return Err(Stop::Known);
            }
            if has_not(&q.wh) {
                // What a not leaves out might join loosely if the not were decided otherwise.
                let p = Query { wh: without_nots(&q.wh), ..q.clone() };
                let mut loose = Eval::new(self.db);
                loose.loose = true;
                if loose.solve(&p)? != Eval::new(self.db).solve(&p)? {
                    return Err(Stop::Known);
                }
            }
        }
        Ok(envs)
    }

    /// The distinct bindings of all variables.
    pub fn solve(&mut self, q: &Query) -> Result<Vec<Env>, Stop> {
        let mut env: Env = vec![None; q.nvars];
        let mut fixed = BTreeSet::new();
        for (x, v) in &q.inputs {
            env[*x] = Some(v.clone());
            fixed.insert(*x);
            if let V::Kw(_) = v {
                self.kw.insert(*x);
            }
        }
        self.clauses(&q.wh, vec![env], &fixed)
    }

    /// The rows of a query without aggregates, order or limit.
    pub fn rows(&mut self, q: &Query) -> Result<BTreeSet<Row>, Stop> {
        let envs = self.decided(q)?;
        let vars = q.find_vars();
        Ok(envs.into_iter().map(|e| vars.iter().map(|x| e[*x].clone().expect("find variable bound")).collect()).collect())
    }
}

/// The tokens SQLite's `simple` tokenizer makes of a string: runs of ASCII letters and digits and
/// of any character beyond ASCII, ASCII letters folded to lower case.
/// Whether a search (words, prefixes ending in a star and quoted phrases, all of which must be
/// found) finds a text.
pub fn fts_match(search: &str, text: &str) -> bool {
    let have = tokens(text);
    let mut any = false;
    for (i, part) in search.split('"').enumerate() {
        if i % 2 == 1 {
            let p = tokens(part);
            if p.is_empty() {
                continue;
            }
            any = true;
            if !have.windows(p.len()).any(|w| w == &p[..]) {
                return false;
            }
            continue;
        }
        for word in part.split_whitespace() {
            let star = word.ends_with('*');
            for t in tokens(word) {
                any = true;
                if !have.iter().any(|h| if star { h.starts_with(&t) } else { *h == t }) {
                    return false;
                }
            }
        }
    }
    any
}

pub fn tokens(s: &str) -> Vec<String> {
    let mut out = vec![];
    let mut cur = String::new();
    for c in s.chars() {
        if c.is_alphanumeric() {
            cur.extend(c.to_lowercase());
        } else if !cur.is_empty() {
            out.push(std::mem::take(&mut cur));
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

// ---- running ----

fn scalar(b: &Binding) -> Result<V, String> {
    match b {
        Binding::Scalar(tv) => Ok(V::of(tv)),
        b => Err(format!("unexpected binding {:?}", b)),
    }
}

/// All rows of a result, in order, whatever its shape.
pub fn rows_of(r: &QueryResults) -> Result<Vec<Row>, String> {
    match r {
        QueryResults::Scalar(None) | QueryResults::Tuple(None) => Ok(vec![]),
        QueryResults::Scalar(Some(b)) => Ok(vec![vec![scalar(b)?]]),
        QueryResults::Tuple(Some(bs)) => Ok(vec![bs.iter().map(scalar).collect::<Result<_, _>>()?]),
        QueryResults::Coll(bs) => bs.iter().map(|b| scalar(b).map(|v| vec![v])).collect(),
        QueryResults::Rel(rr) => {
            let mut out = vec![];
            for row in rr.rows() {
                out.push(row.iter().map(scalar).collect::<Result<_, _>>()?);
            }
            Ok(out)
        }
    }
}

pub fn shape_of(r: &QueryResults) -> Shape {
    match r {
        QueryResults::Scalar(_) => Shape::Scalar,
        QueryResults::Tuple(_) => Shape::Tuple,
        QueryResults::Coll(_) => Shape::Coll,
        QueryResults::Rel(_) => Shape::Rel,
    }
}

pub fn run_rows<Q: Queryable>(store: &Q, q: &Query) -> Result<Vec<Row>, String> {
    let out = store.q_once(q.text().as_str(), q.inputs()).map_err(|e| format!("query {} failed: {}", q.show(), e))?;
    if shape_of(&out.results) != q.shape {
        return Err(format!("query {} returned a {:?}", q.show(), shape_of(&out.results)));
    }
    rows_of(&out.results)
}

pub fn show_rows(rs: &[&Row]) -> String {
    let mut o: Vec<String> = rs.iter().take(6).map(|r| format!("{:?}", r)).collect();
    if rs.len() > 6 {
        o.push(format!("... {} in all", rs.len()));
    }
    o.join(" ")
}

/// One representative for equal numbers.
pub fn one_number(v: &V) -> V {
    match v {
        V::Long(n) => V::Dbl(D(*n as f64)),
        v => v.clone(),
    }
}

/// Compare a set of expected rows with the rows returned.
pub fn same_rows(q: &Query, want: &BTreeSet<Row>, got: &[Row]) -> CaseResult {
    let set: BTreeSet<Row> = got.iter().cloned().collect();
    if set.len() != got.len() {
        return Err(format!("query {} returned duplicate rows: {} rows, {} distinct", q.show(), got.len(), set.len()));
    }
    if &set == want {
        return Ok(());
    }
    // A long and an equal double have one representation, and only one of them is returned.
    let canon = |rs: &BTreeSet<Row>| -> BTreeSet<Row> { rs.iter().map(|r| r.iter().map(one_number).collect()).collect() };
    let cw = canon(want);
    if cw.len() < want.len() && set.is_subset(want) && canon(&set) == cw {
        return Ok(());
    }
    let missing: Vec<&Row> = want.difference(&set).collect();
    let extra: Vec<&Row> = set.difference(want).collect();
    Err(format!("query {}\nmissing rows: {}\nextra rows: {}", q.show(), show_rows(&missing), show_rows(&extra)))
}

// ---- generation ----

pub type Ts = u16;
pub const ANY: Ts = 0xff;
pub fn bit(t: Vt) -> Ts {
    1 << ALL_VT.iter().position(|x| *x == t).unwrap()
}
pub fn numeric() -> Ts {
    bit(Vt::Long) | bit(Vt::Dbl)
}

#[derive(Clone)]
pub struct QGen<'a> {
    pub db: &'a Db,
    /// Facts about user data (as opposed to schema and transactions).
    pub user: Vec<usize>,
    pub ents: Vec<i64>,
    pub ty: Vec<Ts>,
    pub wit: Vec<Option<V>>,
    pub bound: Vec<usize>,
    /// Variables grounded with an integer or keyword, whose type a later input must not change.
    pub touchy: BTreeSet<usize>,
    pub clash: bool,
    pub log: bool,
    /// Search fulltext attributes.
    pub full: bool,
    /// Never leave the attribute open.
    pub plain: bool,
    /// How often, in percent, to bind inputs.
    pub input_pct: u64,
}

impl<'a> QGen<'a> {
    pub fn new(db: &'a Db, ents: Vec<i64>) -> QGen<'a> {
        let user = db.facts.iter().enumerate().filter(|(_, (e, a, _, _))| *e >= USER0 && !db.vt.contains_key(e) && *a >= USER0).map(|(i, _)| i).collect();
        QGen { db, user, ents, ty: vec![], wit: vec![], bound: vec![], touchy: BTreeSet::new(), clash: false, log: false, full: false, plain: false, input_pct: 25 }
    }

    fn new_var(&mut self, t: Ts, w: Option<V>) -> usize {
        self.ty.push(t);
        self.wit.push(w);
        let x = self.ty.len() - 1;
        self.bound.push(x);
        x
    }

    fn ident_of(&self, e: i64) -> Option<String> {
        self.db.idents.iter().find(|(_, x)| **x == e).map(|(k, _)| k.clone())
    }

    /// A fact, preferably one that holds a witness of a bound variable.
    fn fact(&self, s: &mut Src, want: Option<usize>) -> Option<(i64, i64, V, i64)> {
        if self.db.facts.is_empty() {
            return None;
        }
        if let Some(x) = want {
            if let Some(w) = &self.wit[x] {
                let mut c: Vec<usize> = self.db.by_v.get(w).cloned().unwrap_or_default();
                if let V::Ref(e) = w {
                    c.extend(self.db.by_e.get(e).cloned().unwrap_or_default());
                    if s.chance(1, 6) {
                        c.extend(self.db.by_a.get(e).cloned().unwrap_or_default());
                    }
                }
                if !c.is_empty() && s.chance(5, 6) {
                    return Some(self.db.facts[*s.pick(&c)].clone());
                }
            }
        }
        if !self.user.is_empty() && s.chance(9, 10) {
            return Some(self.db.facts[*s.pick(&self.user)].clone());
        }
        Some(s.pick(&self.db.facts).clone())
    }

    fn near(&self, s: &mut Src, v: &V) -> V {
        match s.weighted(&[6, 2, 1]) {
            0 => v.clone(),
            1 => small_value(s, v.vt(), &self.ents),
            _ => {
                let t = *s.pick(&ALL_VT);
                small_value(s, t, &self.ents)
            }
        }
    }

    fn var_for(&mut self, s: &mut Src, t: Ts, val: &V, scope: &[usize], fresh: bool, taken: &[usize]) -> Option<usize> {
        // Prefer a variable whose witness is this very value.
        let same: Vec<usize> = scope.iter().cloned().filter(|x| self.wit[*x].as_ref() == Some(val) && self.ty[*x] & t != 0).collect();
        if !same.is_empty() && s.chance(4, 5) {
            return Some(*s.pick(&same));
        }
        if fresh && s.chance(7, 8) {
            return Some(self.new_var(t, Some(val.clone())));
        }
        let other: Vec<usize> = scope.iter().cloned().filter(|x| self.ty[*x] & t != 0 && !taken.contains(x)).collect();
        if !other.is_empty() {
            return Some(*s.pick(&other));
        }
        if fresh {
            return Some(self.new_var(t, Some(val.clone())));
        }
        None
    }

    /// A pattern. `must`: a variable it has to mention (or fail).
    pub fn pattern(&mut self, s: &mut Src, scope: &[usize], fresh: bool, must: Option<usize>) -> Option<Cl> {
        let want = must.or_else(|| if scope.is_empty() || s.chance(1, 5) { None } else { Some(*s.pick(scope)) });
        let (fe, fa, fv, ft) = self.fact(s, want)?;
        let mut used: Vec<usize> = vec![];
        let rb = bit(Vt::Ref);
        // Attribute.
        let aterm = if self.plain { s.weighted(&[12, 2]) } else { s.weighted(&[12, 2, 3, 1]) };
        let a = match aterm {
            0 => self.ident_of(fa).map(Tm::Ident).unwrap_or(Tm::C(V::Ref(fa))),
            1 => Tm::C(V::Ref(fa)),
            2 => match self.var_for(s, rb, &V::Ref(fa), scope, fresh, &used) {
                Some(x) => {
                    used.push(x);
                    Tm::Var(x)
                }
                None => self.ident_of(fa).map(Tm::Ident).unwrap_or(Tm::C(V::Ref(fa))),
            },
            _ => Tm::Blank,
        };
        let known = match a {
            Tm::Var(_) | Tm::Blank => None,
            _ => self.db.vt.get(&fa).cloned(),
        };
        // Entity.
        let e = match s.weighted(&[10, 2, 1]) {
            0 => match self.var_for(s, rb, &V::Ref(fe), scope, fresh, &used) {
                Some(x) => {
                    used.push(x);
                    Tm::Var(x)
                }
                None => Tm::Blank,
            },
            1 => {
                let k = if s.chance(1, 8) { *s.pick(&[0, 1, 99999, USER0]) } else { fe };
                match self.ident_of(k) {
                    Some(i) if s.chance(1, 2) => Tm::Ident(i),
                    _ => Tm::C(V::Ref(k)),
                }
            }
            _ => Tm::Blank,
        };
        // Value.
        let vt = match known {
            Some(t) => bit(t),
            None => ANY,
        };
        let v = match s.weighted(&[10, 4, 2]) {
            0 => match self.var_for(s, vt, &fv, scope, fresh, &used) {
                Some(x) => {
                    used.push(x);
                    Tm::Var(x)
                }
                None => Tm::Blank,
            },
            1 => {
                let c = self.near(s, &fv);
                match (&c, known) {
                    (V::Ref(n), Some(Vt::Ref)) => match self.ident_of(*n) {
                        Some(i) if s.chance(2, 3) => Tm::Ident(i),
                        _ => Tm::C(c),
                    },
                    _ => Tm::C(c),
                }
            }
            _ => Tm::Blank,
        };
        let tx = match s.weighted(&[14, 2, 1]) {
            0 => Tm::Blank,
            1 => match self.var_for(s, rb, &V::Ref(ft), scope, fresh, &used) {
                Some(x) => {
                    used.push(x);
                    Tm::Var(x)
                }
                None => Tm::Blank,
            },
            _ => Tm::C(V::Ref(ft)),
        };
        let mut p = [e, a, v, tx];
        if let Some(x) = must {
            if !p.contains(&Tm::Var(x)) {
                let w = self.wit[x].clone();
                let at = |p: &[Tm; 4], i: usize| match p[i] {
                    Tm::Var(y) => scope.contains(&y) && Some(y) != must,
                    _ => false,
                };
                let mut slots = vec![];
                if self.ty[x] & rb != 0 {
                    slots.push(0);
                    if w == Some(V::Ref(ft)) {
                        slots.push(3);
                    }
                    if w == Some(V::Ref(fe)) {
                        slots = vec![0];
                    }
                }
                if self.ty[x] & vt != 0 && !(slots == vec![0] && w == Some(V::Ref(fe))) {
                    slots.push(2);
                    if w.as_ref() == Some(&fv) {
                        slots = vec![2];
                    }
                }
                slots.retain(|i| !at(&p, *i));
                if slots.is_empty() {
                    return None;
                }
                let i = *s.pick(&slots);
                p[i] = Tm::Var(x);
            }
        }
        let [e, a, v, tx] = p;
        // Types.
        let mut narrow: Vec<(usize, Ts)> = vec![];
        for t in &[&e, &a, &tx] {
            if let Tm::Var(x) = t {
                narrow.push((*x, rb));
            }
        }
        if let Tm::Var(x) = &v {
            narrow.push((*x, vt));
        }
        for (x, t) in narrow {
            if self.ty[x] & t == 0 {
                self.clash = true;
            }
            self.ty[x] &= t;
        }
        let rev_ok = match (&a, &v) {
            (Tm::Ident(_), Tm::Var(_)) | (Tm::Ident(_), Tm::Ident(_)) | (Tm::Ident(_), Tm::C(V::Ref(0..=i64::MAX))) | (Tm::Ident(_), Tm::Blank) => known == Some(Vt::Ref) || known.is_some() && v == Tm::Blank,
            _ => false,
        };
        let rev = rev_ok && s.chance(1, 5);
        let c = Cl::Pat { e, a, v, tx, rev, src: s.chance(1, 12) };
        self.prune();
        Some(c)
    }

    /// Variables made for a place that another took over in the end are not bound.
    fn prune(&mut self) {}

    fn pred(&mut self, s: &mut Src, scope: &[usize]) -> Option<Cl> {
        if scope.is_empty() {
            return None;
        }
        let cmp = bit(Vt::Inst) | numeric();
        let rb = bit(Vt::Ref);
        // Comparing a variable of several types is a known finding (see known_findings.txt).
        let definite = |t: Ts| t != 0 && (t == rb || t == bit(Vt::Inst) || t & !numeric() == 0);
        let scope: Vec<usize> = scope.iter().cloned().filter(|x| definite(self.ty[*x])).collect();
        if scope.is_empty() {
            return None;
        }
        let x = *s.pick(&scope);
        let m = self.ty[x] & cmp;
        if self.ty[x] == rb {
            let op = *s.pick(&["differ", "unpermute", "tx-after", "tx-before"]);
            let others: Vec<usize> = scope.iter().cloned().filter(|y| *y != x && self.ty[*y] & rb != 0).collect();
            let r = if !others.is_empty() && s.chance(2, 3) {
                let y = *s.pick(&others);
                self.ty[y] = rb;
                Tm::Var(y)
            } else {
                let e = match &self.wit[x] {
                    Some(V::Ref(e)) if *e >= 0 && s.bool() => *e,
                    _ => if self.ents.is_empty() { 10 } else { *s.pick(&self.ents) },
                };
                match self.ident_of(e) {
                    Some(i) if s.bool() => Tm::Ident(i),
                    _ => Tm::C(V::Ref(e)),
                }
            };
            self.ty[x] = rb;
            let l = Tm::Var(x);
            return Some(if s.bool() { Cl::Pred { op, l, r } } else { Cl::Pred { op, l: r, r: l } });
        }
        if m == 0 {
            return None;
        }
        let op = *s.pick(&["<", "<=", ">", ">=", "!="]);
        let widen = |t: Ts| if t & bit(Vt::Long) != 0 { t | bit(Vt::Dbl) } else { t };
        let shared_ok = |a: Ts, b: Ts| {
            let sh = widen(a & cmp) & widen(b & cmp);
            sh != 0 && (sh == bit(Vt::Inst) || sh & !numeric() == 0)
        };
        let others: Vec<usize> = scope.iter().cloned().filter(|y| *y != x && shared_ok(self.ty[x], self.ty[*y])).collect();
        let r = if !others.is_empty() && s.chance(1, 2) {
            let y = *s.pick(&others);
            Tm::Var(y)
        } else {
            let c = match &self.wit[x] {
                Some(V::Long(n)) => {
                    if s.chance(1, 4) {
                        V::Dbl(D(*n as f64 + 0.5))
                    } else {
                        V::Long(n.saturating_add(s.range(-1, 1)))
                    }
                }
                Some(V::Dbl(d)) => if s.bool() { V::Dbl(*d) } else { V::Long(d.0 as i64) },
                Some(V::Inst(i)) if m & bit(Vt::Inst) != 0 => V::Inst(i + s.range(-1, 1)),
                _ if m & bit(Vt::Long) != 0 => V::Long(s.range(-2, 4)),
                _ if m & bit(Vt::Dbl) != 0 => V::Dbl(D(0.75)),
                _ => V::Inst(1_000_000),
            };
            Tm::C(c)
        };
        let other_ty = match &r {
            Tm::Var(y) => self.ty[*y],
            Tm::C(V::Long(n)) => if *n >= 0 { numeric() | bit(Vt::Ref) } else { numeric() },
            Tm::C(v) => bit(v.vt()),
            _ => 0,
        };
        let sh = widen(m) & widen(other_ty & cmp);
        if sh == 0 {
            return None;
        }
        let to = if sh == bit(Vt::Inst) { bit(Vt::Inst) } else { numeric() };
        if sh & !numeric() != 0 && to != bit(Vt::Inst) {
            return None;
        }
        if let Tm::Var(y) = &r {
            if self.ty[*y] & to == 0 {
                return None;
            }
            self.ty[*y] &= to;
        }
        if self.ty[x] & to == 0 {
            return None;
        }
        self.ty[x] &= to;
        let l = Tm::Var(x);
        Some(if s.chance(2, 3) { Cl::Pred { op, l, r } } else { Cl::Pred { op, l: r, r: l } })
    }

    /// A constant for `ground` that can only be read one way, given what is known of the variable.
    fn ground_const(&mut self, s: &mut Src, x: Option<usize>, t: Vt, w: &Option<V>) -> Tm {
        let v = match w {
            Some(v) if v.vt() == t && !matches!(v, V::Ref(i64::MIN..=-1)) && s.chance(2, 3) => v.clone(),
            _ => small_value(s, t, &self.ents),
        };
        if let Some(x) = x {
            if t == Vt::Long || t == Vt::Ref || t == Vt::Kw {
                self.touchy.insert(x);
            }
        }
        match v {
            V::Ref(e) => match self.ident_of(e) {
                Some(i) if s.bool() => Tm::Ident(i),
                _ => Tm::C(V::Ref(e)),
            },
            v => Tm::C(v),
        }
    }

    fn ground(&mut self, s: &mut Src, scope: &[usize], fresh: bool) -> Option<Cl> {
        let form = s.weighted(&[3, 2, 3, 3]) as u8;
        let width = match form {
            0 | 2 => 1,
            _ => s.size(1, 3),
        };
        let mut vars: Vec<Option<usize>> = vec![];
        let mut tys: Vec<Vt> = vec![];
        for _ in 0..width {
            if width > 1 && s.chance(1, 6) {
                vars.push(None);
                tys.push(*s.pick(&[Vt::Long, Vt::Str]));
                continue;
            }
            let old: Vec<usize> = scope.iter().cloned().filter(|x| !vars.contains(&Some(*x)) && self.ty[*x].count_ones() == 1).collect();
            if !old.is_empty() && (!fresh || s.chance(2, 3)) {
                let x = *s.pick(&old);
                vars.push(Some(x));
                tys.push(*ALL_VT.iter().find(|t| bit(**t) == self.ty[x]).unwrap());
            } else if fresh {
                let t = *s.pick(&[Vt::Long, Vt::Str, Vt::Kw, Vt::Bool, Vt::Dbl, Vt::Inst, Vt::Uuid, Vt::Str]);
                let w = self.fact(s, None).map(|f| f.2);
                let x = self.new_var(bit(t), w);
                vars.push(Some(x));
                tys.push(t);
            } else {
                return None;
            }
        }
        if vars.iter().all(|x| x.is_none()) {
            return None;
        }
        let n = if form < 2 { 1 } else { s.size(1, 4) };
        let mut rows = vec![];
        for i in 0..n {
            let mut r = vec![];
            for (x, t) in vars.iter().zip(tys.iter()) {
                let w = x.and_then(|x| if i == 0 { self.wit[x].clone() } else { None });
                let k = self.ground_const(s, *x, *t, &w);
                if i == 0 {
                    if let (Some(x), Tm::C(v)) = (x, &k) {
                        if !scope.contains(x) {
                            self.wit[*x] = Some(v.clone());
                        }
                    }
                }
                r.push(k);
            }
            rows.push(r);
        }
        Some(Cl::Ground { form, vars, rows })
    }

    /// A pattern, or if the log may be used, perhaps a clause over the log. `args` are variables
    /// that clauses before this one bind.
    fn atom(&mut self, s: &mut Src, scope: &[usize], fresh: bool, must: Option<usize>, args: &[usize]) -> Option<Cl> {
        if self.log && s.chance(1, 3) {
            let (ty, bound) = (self.ty.clone(), self.bound.clone());
            if let Some(c) = self.log_clause(s, scope, fresh, must, args) {
                return Some(c);
            }
            for (i, t) in ty.iter().enumerate() {
                self.ty[i] = *t;
            }
            self.bound = bound;
        }
        if self.full && s.chance(1, 3) {
            let (ty, bound) = (self.ty.clone(), self.bound.clone());
            if let Some(c) = self.full_clause(s, scope, fresh, must, args) {
                return Some(c);
            }
            for (i, t) in ty.iter().enumerate() {
                self.ty[i] = *t;
            }
            self.bound = bound;
        }
        self.pattern(s, scope, fresh, must)
    }

    pub fn full_clause(&mut self, s: &mut Src, scope: &[usize], fresh: bool, must: Option<usize>, args: &[usize]) -> Option<Cl> {
        let rb = bit(Vt::Ref);
        let want = must.and_then(|x| self.wit[x].clone()).or_else(|| if scope.is_empty() || s.chance(1, 3) { None } else { self.wit[*s.pick(scope)].clone() });
        let all: Vec<usize> = (0..self.db.facts.len())
            .filter(|i| {
                let f = &self.db.facts[*i];
                self.db.fts.contains(&f.1)
                    && match &want {
                        None => true,
                        Some(V::Ref(e)) => f.0 == *e || f.3 == *e,
                        Some(v) => f.2 == *v,
                    }
            })
            .collect();
        let (fe, mut fa, fv, ft) = self.db.facts[*s.pick_opt(&all)?].clone();
        let text = match &fv {
            V::Str(t) => t.clone(),
            _ => return None,
        };
        if s.chance(1, 12) {
            let o: Vec<i64> = self.db.fts.iter().cloned().collect();
            fa = *s.pick(&o);
        }
        let vals = [V::Ref(fe), fv.clone(), V::Ref(ft)];
        let tys = [rb, bit(Vt::Str), rb];
        let n = s.size(1, 3);
        let mut b = vec![];
        let mut used: Vec<usize> = vec![];
        for i in 0..n {
            if s.chance(1, 5) {
                b.push(Tm::Blank);
                continue;
            }
            let m = must.filter(|x| !used.contains(x) && self.wit[*x].as_ref() == Some(&vals[i]) && self.ty[*x] & tys[i] != 0);
            let free: Vec<usize> = scope.iter().cloned().filter(|x| !used.contains(x)).collect();
            let x = match m {
                Some(x) => Some(x),
                None => self.var_for(s, tys[i], &vals[i], &free, fresh, &used),
            };
            match x {
                Some(x) if !used.contains(&x) && self.ty[x] & tys[i] != 0 => {
                    used.push(x);
                    self.ty[x] &= tys[i];
                    b.push(Tm::Var(x));
                }
                _ => b.push(Tm::Blank),
            }
        }
        if used.is_empty() || must.map_or(false, |x| !used.contains(&x)) {
            return None;
        }
        // What to search for.
        let plain = |t: &str| t.chars().all(|c| c.is_alphanumeric() || c == ' ') && !tokens(t).is_empty() && !t.split(' ').any(|w| ["OR", "AND", "NOT", "NEAR"].contains(&w));
        let vars: Vec<usize> = args.iter().cloned().filter(|x| self.ty[*x] == bit(Vt::Str) && !used.contains(x) && matches!(&self.wit[*x], Some(V::Str(t)) if plain(t))).collect();
        if !vars.is_empty() && s.chance(1, 4) {
            let x = *s.pick(&vars);
            return Some(Cl::Full { a: self.full_attr(s, fa), text: Tm::Var(x), b });
        }
        let have = tokens(&text);
        let word = |s: &mut Src| {
            let w = if have.is_empty() || s.chance(1, 8) { s.pick(&["fox", "dog", "12", "nothing", "π"]).to_string() } else { s.pick(&have).clone() };
            match s.below(4) {
                0 => w.to_uppercase(),
                _ => w,
            }
        };
        let mut search = word(s);
        match s.weighted(&[6, 3, 2, 2]) {
            0 => (),
            1 => search = format!("{} {}", search, word(s)),
            2 => {
                let n = s.size(1, std::cmp::max(1, search.chars().count()));
                search = format!("{}*", search.chars().take(n).collect::<String>());
            }
            _ => {
                let i = s.idx(std::cmp::max(1, have.len()));
                let j = std::cmp::min(have.len(), i + s.size(1, 3));
                if i < j {
                    search = format!("\"{}\"", have[i..j].join(" "));
                }
                if s.chance(1, 3) {
                    search = format!("{} {}", search, word(s));
                }
            }
        }
        if search.split(' ').any(|w| ["OR", "AND", "NOT", "NEAR"].contains(&w)) || tokens(&search).is_empty() {
            search = "fox".into();
        }
        Some(Cl::Full { a: self.full_attr(s, fa), text: Tm::C(V::Str(search)), b })
    }

    fn full_attr(&self, s: &mut Src, a: i64) -> Tm {
        match self.ident_of(a) {
            Some(i) if s.chance(3, 4) => Tm::Ident(i),
            _ => Tm::C(V::Ref(a)),
        }
    }

    fn tx_arg(&mut self, s: &mut Src, tx: i64, args: &[usize]) -> Tm {
        let rb = bit(Vt::Ref);
        let c: Vec<usize> = args.iter().cloned().filter(|x| self.ty[*x] & rb != 0 && matches!(self.wit[*x], Some(V::Ref(_)))).collect();
        let same: Vec<usize> = c.iter().cloned().filter(|x| self.wit[*x] == Some(V::Ref(tx))).collect();
        if !same.is_empty() && s.chance(2, 3) {
            let x = *s.pick(&same);
            self.ty[x] = rb;
            return Tm::Var(x);
        }
        if !c.is_empty() && s.chance(1, 5) {
            let x = *s.pick(&c);
            self.ty[x] = rb;
            return Tm::Var(x);
        }
        if s.chance(1, 15) {
            if let Some(i) = self.ident_of(if self.ents.is_empty() { 10 } else { *s.pick(&self.ents) }) {
                return Tm::Ident(i);
            }
        }
        Tm::C(V::Ref(tx))
    }

    pub fn log_clause(&mut self, s: &mut Src, scope: &[usize], fresh: bool, must: Option<usize>, args: &[usize]) -> Option<Cl> {
        let rb = bit(Vt::Ref);
        let txs: Vec<i64> = self.db.log.keys().cloned().collect();
        if txs.is_empty() {
            return None;
        }
        let ids = match must {
            Some(x) => matches!(self.wit[x], Some(V::Ref(t)) if t >= TX0) && self.ty[x] & rb != 0 && s.bool(),
            None => s.chance(1, 3),
        };
        if ids {
            let t = match must {
                Some(x) => match self.wit[x] {
                    Some(V::Ref(t)) => t,
                    _ => return None,
                },
                None => *s.pick(&txs),
            };
            let lo = match s.below(4) {
                0 => t,
                1 => t - 1,
                2 => txs[0],
                _ => {
                    let o = *s.pick(&txs);
                    *s.pick(&[0, TX0, t.saturating_add(1), o])
                },
            };
            let hi = match s.below(4) {
                0 => t.saturating_add(1),
                1 => t.saturating_add(2),
                2 => txs[txs.len() - 1] + 1,
                _ => {
                    let o = *s.pick(&txs);
                    *s.pick(&[t, i64::max_value(), TX0, o])
                },
            };
            let lo = self.tx_arg(s, lo, args);
            let hi = self.tx_arg(s, hi, args);
            let x = match must {
                Some(x) => x,
                None => self.var_for(s, rb, &V::Ref(t), scope, fresh, &[])?,
            };
            if lo == Tm::Var(x) || hi == Tm::Var(x) {
                return None;
            }
            self.ty[x] &= rb;
            return Some(Cl::TxIds { lo, hi, x, rel: s.bool() });
        }
        // A datom of the log, one that has the witness if there is one.
        let want = must.and_then(|x| self.wit[x].clone()).or_else(|| if scope.is_empty() || s.chance(1, 4) { None } else { self.wit[*s.pick(scope)].clone() });
        let mut all: Vec<(i64, (i64, i64, V, bool))> = vec![];
        for (t, ds) in &self.db.log {
            for d in ds {
                let hit = match &want {
                    None => *t > TX0 || s.chance(1, 50),
                    Some(V::Ref(e)) => d.0 == *e || d.2 == V::Ref(*e) || t == e || (d.1 == *e && *t > TX0),
                    Some(v) => d.2 == *v,
                };
                if hit {
                    all.push((*t, d.clone()));
                }
            }
        }
        let (t, d) = if !all.is_empty() { s.pick(&all).clone() } else {
            let t = *s.pick(&txs);
            let ds: Vec<_> = self.db.log[&t].iter().cloned().collect();
            (t, s.pick_opt(&ds)?.clone())
        };
        let vals = [V::Ref(d.0), V::Ref(d.1), d.2.clone(), V::Ref(t), V::Bool(d.3)];
        let tys = [rb, rb, ANY, rb, bit(Vt::Bool)];
        let n = s.size(1, 5);
        let mut b = vec![];
        let mut used: Vec<usize> = vec![];
        for i in 0..n {
            if s.chance(1, 4) {
                b.push(Tm::Blank);
                continue;
            }
            let m = must.filter(|x| !used.contains(x) && self.wit[*x].as_ref() == Some(&vals[i]) && self.ty[*x] & tys[i] != 0);
            let free: Vec<usize> = scope.iter().cloned().filter(|x| !used.contains(x)).collect();
            let x = match m {
                Some(x) => Some(x),
                None => self.var_for(s, tys[i], &vals[i], &free, fresh, &used),
            };
            match x {
                Some(x) if !used.contains(&x) => {
                    used.push(x);
                    self.ty[x] &= tys[i];
                    b.push(Tm::Var(x));
                }
                _ => b.push(Tm::Blank),
            }
        }
        if used.is_empty() || must.map_or(false, |x| !used.contains(&x)) {
            return None;
        }
        let args: Vec<usize> = args.iter().cloned().filter(|x| !used.contains(x)).collect();
        let tx = if s.chance(1, 8) { *s.pick(&txs) } else { t };
        let tx = self.tx_arg(s, tx, &args);
        Some(Cl::TxData { tx, b })
    }

    /// Clauses that bind every variable of `join`, from nothing.
    fn leg(&mut self, s: &mut Src, join: &[usize], extra: bool, depth: usize) -> Option<Vec<Cl>> {
        let mut out: Vec<Cl> = vec![];
        let mut seen: BTreeSet<usize> = BTreeSet::new();
        let mut inner: Vec<usize> = vec![];
        for x in join {
            if seen.contains(x) {
                continue;
            }
            let before = self.ty.len();
            let mut scope: Vec<usize> = join.to_vec();
            scope.extend(inner.iter().cloned());
            let args: Vec<usize> = seen.iter().cloned().collect();
            let c = self.atom(s, &scope, extra, Some(*x), &args)?;
            for y in before..self.ty.len() {
                inner.push(y);
            }
            vars_of(std::slice::from_ref(&c), &mut seen);
            out.push(c);
        }
        inner.retain(|x| seen.contains(x));
        let mut scope: Vec<usize> = join.to_vec();
        scope.extend(inner.iter().cloned());
        if s.chance(1, 3) {
            let before = self.ty.len();
            let args: Vec<usize> = seen.iter().cloned().collect();
            if let Some(c) = self.atom(s, &scope, extra, None, &args) {
                let mut vs = BTreeSet::new();
                vars_of(std::slice::from_ref(&c), &mut vs);
                scope.extend((before..self.ty.len()).filter(|x| vs.contains(x)));
                out.push(c);
            }
        }
        if s.chance(1, 6) {
            if let Some(c) = self.pred(s, &scope) {
                out.push(c);
            }
        }
        if depth > 0 && s.chance(1, 6) {
            if let Some(c) = self.not(s, &scope, depth - 1) {
                if extra || !has_extra(&c, &scope) {
                    out.push(c);
                }
            }
        }
        if depth > 0 && s.chance(1, 8) {
            if let Some(c) = self.or(s, &scope, extra, depth - 1) {
                out.push(c);
            }
        }
        Some(out)
    }

    pub fn or(&mut self, s: &mut Src, scope: &[usize], fresh: bool, depth: usize) -> Option<Cl> {
        let (ty, bound) = (self.ty.clone(), self.bound.clone());
        let r = self.or_(s, scope, fresh, depth);
        if r.is_none() {
            self.ty[..ty.len()].copy_from_slice(&ty);
            self.bound = bound;
        }
        r
    }

    pub fn not(&mut self, s: &mut Src, scope: &[usize], depth: usize) -> Option<Cl> {
        let (ty, bound) = (self.ty.clone(), self.bound.clone());
        let r = self.not_(s, scope, depth);
        if r.is_none() {
            self.ty[..ty.len()].copy_from_slice(&ty);
            self.bound = bound;
        }
        r
    }

    fn or_(&mut self, s: &mut Src, scope: &[usize], fresh: bool, depth: usize) -> Option<Cl> {
        let mut join: Vec<usize> = vec![];
        for _ in 0..s.weighted(&[1, 5, 2]) {
            if !scope.is_empty() {
                let x = *s.pick(scope);
                if !join.contains(&x) && self.ty[x] != 0 {
                    join.push(x);
                }
            }
        }
        let mut fresh_vars = vec![];
        if join.is_empty() || (fresh && s.chance(1, 3)) {
            if !fresh {
                return None;
            }
            for _ in 0..s.size(1, 2) {
                let f = self.fact(s, None)?;
                let (w, _) = if s.bool() { (V::Ref(f.0), 0) } else { (f.2, 1) };
                let x = self.new_var(ANY, Some(w));
                join.push(x);
                fresh_vars.push(x);
            }
        }
        let explicit = s.chance(1, 2);
        let n = s.weighted(&[0, 1, 8, 3]);
        let ty0 = self.ty.clone();
        let mut acc: Vec<Ts> = vec![0; join.len()];
        let mut legs = vec![];
        for _ in 0..n {
            for x in &join {
                self.ty[*x] = ty0[*x];
            }
            let clash = self.clash;
            let l = self.leg(s, &join, explicit, depth)?;
            // A leg whose types clash is just empty.
            self.clash = clash;
            for (i, x) in join.iter().enumerate() {
                acc[i] |= self.ty[*x];
            }
            legs.push(l);
        }
        for (i, x) in join.iter().enumerate() {
            self.ty[*x] = acc[i];
        }
        // Inside variables are not bound outside; give some of them the name of one that is.
        if explicit && s.chance(1, 4) {
            let outer: Vec<usize> = scope.iter().cloned().filter(|x| !join.contains(x)).collect();
            if !outer.is_empty() {
                let y = *s.pick(&outer);
                let l = s.idx(legs.len());
                let mut vs = BTreeSet::new();
                vars_of(&legs[l], &mut vs);
                let inner: Vec<usize> = vs.into_iter().filter(|x| !join.contains(x) && !scope.contains(x)).collect();
                if !inner.is_empty() && !self.touchy.contains(&inner[0]) {
                    rename_cls(&mut legs[l], inner[0], y);
                }
            }
        }
        self.bound.retain(|x| scope.contains(x) || fresh_vars.contains(x) || join.contains(x));
        Some(Cl::Or { join: if explicit { Some(join) } else { None }, legs })
    }

    fn not_(&mut self, s: &mut Src, scope: &[usize], depth: usize) -> Option<Cl> {
        if scope.is_empty() {
            return None;
        }
        let explicit = s.chance(1, 2);
        let saved_ty = self.ty.clone();
        let saved_bound = self.bound.clone();
        let clash = self.clash;
        let mut join: Vec<usize> = vec![];
        for _ in 0..s.size(1, 2) {
            let x = *s.pick(scope);
            if !join.contains(&x) {
                join.push(x);
            }
        }
        let mut cls = vec![];
        let mut seen = BTreeSet::new();
        let mut inner: Vec<usize> = vec![];
        let n = s.size(1, 2);
        for i in 0..n {
            let before = self.ty.len();
            let mut sc = join.clone();
            sc.extend(inner.iter().cloned());
            let must = if i == 0 { Some(join[0]) } else { None };
            let mut args = join.clone();
            args.extend(seen.iter().cloned());
            if let Some(c) = self.atom(s, &sc, explicit, must, &args) {
                vars_of(std::slice::from_ref(&c), &mut seen);
                inner.extend((before..self.ty.len()).filter(|x| seen.contains(x)));
                cls.push(c);
            }
        }
        if cls.is_empty() {
            return None;
        }
        join.retain(|x| seen.contains(x));
        if join.is_empty() {
            return None;
        }
        let mut sc = join.clone();
        sc.extend(inner.iter().cloned());
        if s.chance(1, 6) {
            if let Some(c) = self.pred(s, &sc) {
                cls.push(c);
            }
        }
        if depth > 0 && s.chance(1, 6) {
            let c = if s.bool() { self.not(s, &sc, 0) } else { self.or(s, &sc, explicit, 0) };
            if let Some(c) = c {
                if explicit || !has_extra(&c, &join) {
                    cls.push(c);
                }
            }
        }
        if explicit && s.chance(1, 4) && !inner.is_empty() {
            let outer: Vec<usize> = scope.iter().cloned().filter(|x| !join.contains(x)).collect();
            if !outer.is_empty() {
                let y = *s.pick(&outer);
                rename_cls(&mut cls, inner[0], y);
            }
        }
        for (i, t) in saved_ty.iter().enumerate() {
            self.ty[i] = *t;
        }
        self.bound = saved_bound;
        self.clash = clash;
        Some(Cl::Not { join: if explicit { Some(join) } else { None }, cls })
    }

    pub fn clauses(&mut self, s: &mut Src, lo: usize, hi: usize) -> Vec<Cl> {
        let n = s.size(lo, hi);
        let mut out: Vec<Cl> = vec![];
        for _ in 0..n {
            let scope = self.bound.clone();
            let before_ty = self.ty.clone();
            let before_bound = self.bound.clone();
            let clash = self.clash;
            let first = out.is_empty();
            let c = match if first { s.weighted(&[10, 0, 1, 0, 2]) } else { s.weighted(&[12, 3, 2, 1, 2, 3]) } {
                0 => {
                    // A third of them, and most first clauses, over the log.
                    if self.log && first && s.bool() {
                        self.log_clause(s, &scope, true, None, &scope)
                    } else if self.full && first && s.bool() {
                        self.full_clause(s, &scope, true, None, &scope)
                    } else {
                        self.atom(s, &scope, true, None, &scope)
                    }
                }
                1 => self.pred(s, &scope),
                2 => self.ground(s, &scope, true),
                3 => {
                    let c: Vec<usize> = scope.iter().cloned().filter(|x| self.ty[*x].count_ones() > 1 && !self.touchy.contains(x)).collect();
                    if c.is_empty() {
                        None
                    } else {
                        let x = *s.pick(&c);
                        let t = match &self.wit[x] {
                            Some(w) if s.chance(3, 4) => w.vt(),
                            _ => *s.pick(&ALL_VT),
                        };
                        if self.ty[x] & bit(t) == 0 {
                            None
                        } else {
                            self.ty[x] = bit(t);
                            Some(Cl::Type { x, t })
                        }
                    }
                }
                4 => self.or(s, &scope, true, 1),
                _ => self.not(s, &scope, 1),
            };
            match c {
                Some(c) => {
                    let mut seen = BTreeSet::new();
                    vars_of(std::slice::from_ref(&c), &mut seen);
                    // A variable made and then not used is not bound.
                    self.bound.retain(|x| before_bound.contains(x) || seen.contains(x));
                    if let Cl::Or { join: Some(j), .. } = &c {
                        let j = j.clone();
                        self.bound.retain(|x| before_bound.contains(x) || j.contains(x));
                    }
                    if self.clash && !clash && !s.chance(1, 20) {
                        // Rarely interesting.
                        self.clash = clash;
                        for (i, t) in before_ty.iter().enumerate() {
                            self.ty[i] = *t;
                        }
                        self.bound = before_bound;
                        continue;
                    }
                    out.push(c);
                }
                None => {
                    for (i, t) in before_ty.iter().enumerate() {
                        self.ty[i] = *t;
                    }
                    self.bound = before_bound;
                    self.clash = clash;
                }
            }
        }
        out
    }

    /// A whole query for a relation of some bound variables.
    pub fn query(&mut self, s: &mut Src, lo: usize, hi: usize) -> Option<Query> {
        let wh = self.clauses(s, lo, hi);
        if self.bound.is_empty() || wh.is_empty() {
            return None;
        }
        let mut inputs = vec![];
        if s.chance(self.input_pct, 100) {
            for _ in 0..s.size(1, 2) {
                let x = *s.pick(&self.bound);
                if self.touchy.contains(&x) || inputs.iter().any(|(y, _)| *y == x) {
                    continue;
                }
                if let Some(w) = self.wit[x].clone() {
                    let v = if s.chance(4, 5) { w } else { small_value(s, w.vt(), &self.ents) };
                    if self.ty[x] & bit(v.vt()) == 0 {
                        continue;
                    }
                    inputs.push((x, v));
                }
            }
        }
        let mut vars = self.bound.clone();
        let p = s.permutation(vars.len());
        vars = p.into_iter().map(|i| vars[i]).collect();
        let n = s.size(1, std::cmp::min(3, vars.len()));
        vars.truncate(n);
        Some(Query { shape: Shape::Rel, find: vars.into_iter().map(El::Var).collect(), with: vec![], inputs, order: vec![], limit: None, wh, nvars: self.ty.len(), clash: self.clash })
    }
}

fn has_extra(c: &Cl, scope: &[usize]) -> bool {
    // The variables of an explicit join are its own.
    if let Cl::Or { join: Some(_), .. } | Cl::Not { join: Some(_), .. } = c {
        return false;
    }
    let mut s = BTreeSet::new();
    vars_of(std::slice::from_ref(c), &mut s);
    s.iter().any(|x| !scope.contains(x))
}

pub fn rename_tm(t: &mut Tm, from: usize, to: usize) {
    if *t == Tm::Var(from) {
        *t = Tm::Var(to);
    }
}
pub fn rename_cls(cls: &mut [Cl], from: usize, to: usize) {
    for c in cls {
        match c {
            Cl::Pat { e, a, v, tx, .. } => {
                for t in vec![e, a, v, tx] {
                    rename_tm(t, from, to);
                }
            }
            Cl::Pred { l, r, .. } => {
                rename_tm(l, from, to);
                rename_tm(r, from, to);
            }
            Cl::Ground { vars, .. } => {
                for x in vars.iter_mut() {
                    if *x == Some(from) {
                        *x = Some(to);
                    }
                }
            }
            Cl::Type { x, .. } => {
                if *x == from {
                    *x = to;
                }
            }
            Cl::Or { join, legs } => {
                if let Some(j) = join {
                    for x in j.iter_mut() {
                        if *x == from {
                            *x = to;
                        }
                    }
                }
                for l in legs {
                    rename_cls(l, from, to);
                }
            }
            Cl::Not { join, cls } => {
                if let Some(j) = join {
                    for x in j.iter_mut() {
                        if *x == from {
                            *x = to;
                        }
                    }
                }
                rename_cls(cls, from, to);
            }
            Cl::TxIds { lo, hi, x, .. } => {
                rename_tm(lo, from, to);
                rename_tm(hi, from, to);
                if *x == from {
                    *x = to;
                }
            }
            Cl::TxData { tx, b } => {
                rename_tm(tx, from, to);
                for t in b {
                    rename_tm(t, from, to);
                }
            }
            Cl::Full { a, text, b } => {
                rename_tm(a, from, to);
                rename_tm(text, from, to);
                for t in b {
                    rename_tm(t, from, to);
                }
            }
        }
    }
}

pub fn label_query(q: &Query, ctx: &mut Ctx) {
    fn walk(cls: &[Cl], ctx: &mut Ctx, depth: usize) {
        for c in cls {
            match c {
                Cl::Pat { a: Tm::Var(_), .. } => ctx.label("pattern with variable attribute"),
                Cl::Pat { a: Tm::Blank, .. } => ctx.label("pattern with open attribute"),
                Cl::Pat { rev: true, .. } => ctx.label("reversed pattern"),
                Cl::Pat { .. } => ctx.label("pattern"),
                Cl::Pred { op, .. } => match *op {
                    "differ" | "unpermute" | "tx-after" | "tx-before" => ctx.label("ref predicate"),
                    _ => ctx.label("predicate"),
                },
                Cl::Ground { .. } => ctx.label("ground"),
                Cl::Type { .. } => ctx.label("type"),
                Cl::Or { join, legs } => {
                    ctx.label(if join.is_some() { "or-join" } else { "or" });
                    if depth > 0 {
                        ctx.label("nested or");
                    }
                    for l in legs {
                        walk(l, ctx, depth + 1);
                    }
                }
                Cl::Not { join, cls } => {
                    ctx.label(if join.is_some() { "not-join" } else { "not" });
                    if depth > 0 {
                        ctx.label("nested not");
                    }
                    walk(cls, ctx, depth + 1);
                }
                Cl::TxIds { .. } => ctx.label("tx-ids"),
                Cl::TxData { .. } => ctx.label("tx-data"),
                Cl::Full { .. } => ctx.label("fulltext clause"),
            }
        }
    }
    walk(&q.wh, ctx, 0);
    if !q.inputs.is_empty() {
        ctx.label("inputs");
    }
}

/// A store with data worth querying.
pub fn world(s: &mut Src, ctx: &mut Ctx, txs: usize) -> Result<crate::world::World, String> {
    let mut w = crate::world::World::mem()?;
    let defs = gen_schema(s, 3, 8);
    w.install(&defs, ctx)?;
    let mut g = TxGen::new(&defs);
    g.retract_pct = 12;
    for _ in 0..txs {
        let t = g.ok_tx(s, &w.m);
        w.transact_noted(&t, ctx)?;
    }
    Ok(w)
}

/// Drop parts of a failing query while it goes on failing.
pub fn reduce_query(q: &Query, fails: &mut dyn FnMut(&Query) -> bool) -> Query {
    let mut q = q.clone();
    let mut budget = 400;
    loop {
        let mut done = true;
        for cand in smaller(&q) {
            if budget == 0 {
                return q;
            }
            budget -= 1;
            if fails(&cand) {
                q = cand;
                done = false;
                break;
            }
        }
        if done {
            return q;
        }
    }
}

fn smaller_cls(cls: &[Cl]) -> Vec<Vec<Cl>> {
    let mut out = vec![];
    for i in 0..cls.len() {
        if cls.len() > 1 {
            let mut c = cls.to_vec();
            c.remove(i);
            out.push(c);
        }
        let mut put = |n: Cl| {
            let mut c = cls.to_vec();
            c[i] = n;
            out.push(c);
        };
        match &cls[i] {
            Cl::Or { join, legs } => {
                for j in 0..legs.len() {
                    if legs.len() > 1 {
                        let mut l = legs.clone();
                        l.remove(j);
                        put(Cl::Or { join: join.clone(), legs: l });
                    }
                    for sub in smaller_cls(&legs[j]) {
                        let mut l = legs.clone();
                        l[j] = sub;
                        put(Cl::Or { join: join.clone(), legs: l });
                    }
                }
            }
            Cl::Not { join, cls } => {
                for sub in smaller_cls(cls) {
                    put(Cl::Not { join: join.clone(), cls: sub });
                }
            }
            Cl::Pat { e, a, v, tx, rev, src } => {
                if *src || *rev {
                    put(Cl::Pat { e: e.clone(), a: a.clone(), v: v.clone(), tx: tx.clone(), rev: false, src: false });
                }
                if *tx != Tm::Blank {
                    put(Cl::Pat { e: e.clone(), a: a.clone(), v: v.clone(), tx: Tm::Blank, rev: *rev, src: *src });
                }
            }
            Cl::Ground { form, vars, rows } if rows.len() > 1 => {
                for j in 0..rows.len() {
                    let mut r = rows.clone();
                    r.remove(j);
                    put(Cl::Ground { form: *form, vars: vars.clone(), rows: r });
                }
            }
            _ => {}
        }
    }
    out
}

fn smaller(q: &Query) -> Vec<Query> {
    let mut out = vec![];
    for w in smaller_cls(&q.wh) {
        let mut n = q.clone();
        n.wh = w;
        out.push(n);
    }
    for i in 0..q.find.len() {
        if q.find.len() > 1 {
            let mut n = q.clone();
            n.find.remove(i);
            out.push(n);
        }
    }
    for i in 0..q.inputs.len() {
        let mut n = q.clone();
        n.inputs.remove(i);
        out.push(n);
    }
    for i in 0..q.order.len() {
        let mut n = q.clone();
        n.order.remove(i);
        out.push(n);
    }
    let mut keep = vec![];
    for n in out {
        let mut vs = BTreeSet::new();
        vars_of(&n.wh, &mut vs);
        if n.find_vars().iter().chain(n.with.iter()).chain(n.order.iter().map(|(x, _)| x)).all(|x| vs.contains(x)) {
            keep.push(n);
        }
    }
    keep
}
