//! C26 expressions; the row-wise meaning also used for the filters of C18.
use std::any::Any;
use std::collections::HashSet;
use std::sync::Arc;

use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::{slice, take};
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::field::Field;
use vortex_dtype::{DType, PType};
use vortex_expr::{split_conjunction, BinaryExpr, Column, Identity, Literal, Operator, Select, VortexExpr};
use vortex_serde::layouts::RowFilter;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_cmp::{bools, warm};
use crate::p_file::{encs_of, rows_of, struct_of};
use crate::report::{attempt, Ctx};

#[derive(Clone, Debug)]
pub enum E {
    /// column number, and whether it is referred to by its position
    Col(usize, bool),
    Lit(V, DType),
    Bin(Operator, Box<E>, Box<E>),
    /// the whole input, which is a single column then
    Id,
}
pub fn bin(o: Operator, a: E, b: E) -> E {
    E::Bin(o, Box::new(a), Box::new(b))
}
pub const CMPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Lt, Operator::Lte, Operator::Gt, Operator::Gte];

pub fn holds(o: Operator, c: std::cmp::Ordering) -> bool {
    match o {
        Operator::Eq => c.is_eq(),
        Operator::NotEq => c.is_ne(),
        Operator::Lt => c.is_lt(),
        Operator::Lte => c.is_le(),
        Operator::Gt => c.is_gt(),
        Operator::Gte => c.is_ge(),
        _ => unreachable!(),
    }
}

impl E {
    pub fn field(names: &[&str], i: usize, by_pos: bool) -> Field {
        if by_pos {
            Field::Index(i)
        } else {
            Field::Name(names[i].to_string())
        }
    }
    pub fn build(&self, names: &[&str]) -> Arc<dyn VortexExpr> {
        match self {
            E::Col(i, p) => Arc::new(Column::new(E::field(names, *i, *p))),
            E::Id => Arc::new(Identity),
            E::Lit(v, d) => Arc::new(Literal::new(scalar_of(v, d))),
            E::Bin(o, a, b) => Arc::new(BinaryExpr::new(a.build(names), *o, b.build(names))),
        }
    }
    pub fn eval(&self, row: &[V]) -> V {
        match self {
            E::Col(i, _) => row[*i].clone(),
            E::Lit(v, _) => v.clone(),
            E::Id => row[0].clone(),
            E::Bin(o, a, b) => {
                let (x, y) = (a.eval(row), b.eval(row));
                match (o, &x, &y) {
                    (Operator::And, V::B(p), V::B(q)) => V::B(*p && *q),
                    (Operator::Or, V::B(p), V::B(q)) => V::B(*p || *q),
                    (_, V::Null, _) | (_, _, V::Null) => V::Null,
                    _ => match vcmp(&x, &y) {
                        Some(c) => V::B(holds(*o, c)),
                        None => V::B(*o == Operator::NotEq),
                    },
                }
            }
        }
    }
    pub fn refs(&self, names: &[&str]) -> HashSet<Field> {
        match self {
            E::Col(i, p) => [E::field(names, *i, *p)].into(),
            E::Lit(..) | E::Id => HashSet::new(),
            E::Bin(_, a, b) => a.refs(names).union(&b.refs(names)).cloned().collect(),
        }
    }
    pub fn show(&self, names: &[&str]) -> String {
        match self {
            E::Col(i, p) => E::field(names, *i, *p).to_string(),
            E::Lit(v, _) => format!("{v:?}"),
            E::Id => "it".into(),
            E::Bin(o, a, b) => format!("({} {o} {})", a.show(names), b.show(names)),
        }
    }
    /// Boolean operands of and/or that hold for every row are needed for a selection to be well formed.
    pub fn selects(&self, row: &[V]) -> bool {
        self.eval(row) == V::B(true)
    }
}

// C26 --------------------------------------------------------------------------------------------

const NM: [&str; 5] = ["a", "b", "ba", "A", ""]; // prefixes of each other, other cases, empty

fn types() -> Vec<DType> {
    vec![prim(PType::I32, true), prim(PType::I32, false), DType::Utf8(nn(true)), DType::Bool(nn(true)), DType::Bool(nn(false))]
}
fn alphabets() -> Vec<Vec<V>> {
    let i = |x| V::of_int(PType::I32, x);
    let (t, f) = (V::B(true), V::B(false));
    vec![vec![V::Null, i(1), i(2)], vec![i(1), i(2)], vec![V::Null, V::s("a"), V::s("b")], vec![V::Null, t.clone(), f.clone()], vec![t, f]]
}
fn cols_of(rows: &[Vec<V>]) -> Vec<Col> {
    types().into_iter().enumerate().map(|(k, d)| Col::new(d, rows.iter().map(|r| r[k].clone()).collect())).collect()
}
/// Every combination of the values of the columns.
fn product() -> Vec<Vec<V>> {
    let mut rows: Vec<Vec<V>> = vec![vec![]];
    for a in alphabets() {
        rows = rows.iter().flat_map(|r| a.iter().map(move |v| [r.clone(), vec![v.clone()]].concat())).collect();
    }
    rows
}

fn atoms(pos: bool) -> Vec<E> {
    let c = |k: usize| E::Col(k, pos);
    let i = |v: V, n: bool| E::Lit(v, prim(PType::I32, n));
    let b = |v: V| E::Lit(v, DType::Bool(nn(true)));
    let s = |v: V| E::Lit(v, DType::Utf8(nn(true)));
    let one = V::of_int(PType::I32, 1);
    let two = V::of_int(PType::I32, 2);
    let groups = [
        vec![c(0), c(1), i(one, false), i(two, true), i(V::Null, true)],
        vec![c(2), s(V::s("a")), s(V::Null)],
        vec![c(3), c(4), b(V::B(true)), E::Lit(V::B(false), DType::Bool(nn(false))), b(V::Null)],
    ];
    let mut v = groups[2].clone();
    for g in &groups {
        for x in g {
            for y in g {
                for o in CMPS {
                    v.push(bin(o, x.clone(), y.clone()));
                }
            }
        }
    }
    v
}

struct Table {
    desc: String,
    rows: Vec<Vec<V>>,
    arr: Array,
}

fn eval_is(e: &E, x: &Arc<dyn VortexExpr>, t: &Table) -> Result<(), String> {
    let r = es(x.evaluate(&t.arr))?;
    if !matches!(r.dtype(), DType::Bool(_)) {
        return Err(format!("type is {}", r.dtype()));
    }
    let want: Vec<V> = t.rows.iter().map(|r| e.eval(r)).collect();
    match diff_vals(&bools(&r, t.rows.len())?, &want) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}
fn selects_is(e: &E, x: Arc<dyn VortexExpr>, t: &Table) -> Result<(), String> {
    let r = es(RowFilter::new(x).evaluate(&t.arr))?;
    let want: Vec<V> = t.rows.iter().map(|r| V::B(e.selects(r))).collect();
    match diff_vals(&bools(&r, t.rows.len())?, &want) {
        Some(d) => Err(format!("selection: {d}")),
        None => Ok(()),
    }
}

fn permutations<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    (0..v.len())
        .flat_map(|i| {
            let mut rest = v.to_vec();
            let x = rest.remove(i);
            permutations(&rest).into_iter().map(move |mut p| {
                p.insert(0, x.clone());
                p
            })
        })
        .collect()
}

/// The meaning of an expression over a table, what it selects, and that neither splitting, nor re-ordering changes that.
fn check_expr(ctx: &Ctx, e: &E, t: &Table, splits: bool) {
    let x = e.build(&NM);
    ctx.check(|| format!("evaluate|{}|{}", t.desc, e.show(&NM)), || eval_is(e, &x, t));
    ctx.check(|| format!("filter|{}|{}", t.desc, e.show(&NM)), || selects_is(e, x.clone(), t));
    if !splits {
        return;
    }
    ctx.check(|| format!("references|{}|{}", t.desc, e.show(&NM)), || {
        let want = e.refs(&NM);
        let got: HashSet<Field> = x.references().into_iter().cloned().collect();
        let filt: HashSet<Field> = RowFilter::new(x.clone()).references().into_iter().cloned().collect();
        if got != want || filt != want {
            return Err(format!("references are {got:?} (of the filter: {filt:?}) instead of {want:?}"));
        }
        Ok(())
    });
    let parts = match attempt(|| Ok(split_conjunction(&x))) {
        Ok(p) => p,
        Err(m) => return ctx.check(|| format!("split|{}|{}", t.desc, e.show(&NM)), || Err(m)),
    };
    if parts.len() > 1 {
        for (k, p) in permutations(&parts).into_iter().enumerate() {
            ctx.check(|| format!("split|{}|{}|order{k}", t.desc, e.show(&NM)), || {
                let left = p[1..].iter().fold(p[0].clone(), |a, b| Arc::new(BinaryExpr::new(a, Operator::And, b.clone())) as _);
                selects_is(e, left, t)?;
                let right = p[..p.len() - 1].iter().rev().fold(p[p.len() - 1].clone(), |a, b| Arc::new(BinaryExpr::new(b.clone(), Operator::And, a)) as _);
                selects_is(e, right, t)
            });
        }
    } else if matches!(e, E::Bin(Operator::And, ..)) {
        ctx.check(|| format!("split|{}|{}", t.desc, e.show(&NM)), || Err("a conjunction was not split".into()));
    }
}

/// The same rows as tables of every kind.
fn tables(rows: &[Vec<V>], what: &str, rich: Rich) -> Vec<Table> {
    let cols = cols_of(rows);
    let n = rows.len();
    let plains: Vec<Array> = cols.iter().map(plain).collect();
    let mut out: Vec<(String, Array)> = vec![("plain".into(), struct_of(&NM, plains.clone(), n))];
    let all: Vec<Vec<(String, Array)>> = cols.iter().map(|c| encs_of(c, rich)).collect();
    for (k, v) in all.iter().enumerate() {
        for (en, a) in v {
            let mut p = plains.clone();
            p[k] = a.clone();
            out.push((format!("{}={en}", NM[k]), struct_of(&NM, p, n)));
        }
    }
    // every column encoded at once
    for j in 0..all.iter().map(Vec::len).max().unwrap_or(0) {
        let p: Vec<Array> = all.iter().map(|v| v[j % v.len()].1.clone()).collect();
        out.push((format!("all{j}"), struct_of(&NM, p, n)));
    }
    // the table itself in other than the struct encoding
    let part = |a: usize, b: usize| struct_of(&NM, cols.iter().map(|c| plain(&c.slice(a, b))).collect(), b - a);
    let d = out[0].1.dtype().clone();
    for ends in few_cuts(n) {
        let mut at = 0;
        let chunks: Vec<Array> = ends.iter().map(|e| { let p = part(at, *e); at = *e; p }).collect();
        if let Ok(c) = ChunkedArray::try_new(chunks, d.clone()) {
            out.push((format!("chunked{ends:?}"), c.into_array()));
        }
    }
    let whole = rows_of(&NM, &cols, n);
    if n > 0 && rows.iter().all(|r| *r == rows[0]) {
        out.push(("constant".into(), ConstantArray::new(scalar_of(&whole.vals[0], &d), n).into_array()));
    }
    if n > 0 {
        if let Ok(a) = attempt(|| es(sparse(&whole, &whole.vals[0].clone()))) {
            if attempt(|| same(&a, &whole)).is_ok() {
                out.push(("sparse".into(), a));
            }
        }
    }
    // slices and takes of larger tables
    let big = struct_of(&NM, cols.iter().map(|c| plain(&Col::concat(&[c.slice(0, n.min(1)), c.clone(), c.slice(0, n.min(1))]))).collect(), n + 2 * n.min(1));
    if let Ok(a) = attempt(|| es(slice(&big, n.min(1), n.min(1) + n))) {
        out.push(("sliced".into(), a));
    }
    if let Some(ix) = index_array(&(0..n).map(|i| i + n.min(1)).collect::<Vec<_>>(), Ix::P(PType::U64)) {
        if let Ok(a) = attempt(|| es(take(&big, &ix))) {
            out.push(("taken".into(), a));
        }
    }
    let w = struct_of(&NM, all.iter().map(|v| v[v.len() - 1].1.clone()).collect(), n);
    warm(&w);
    for k in 0..NM.len() {
        if let Some(c) = w.with_dyn(|a| a.as_struct_array_unchecked().field(k)) {
            warm(&c);
        }
    }
    out.push(("warm".into(), w));
    // a struct that may be null, none of whose rows is
    if let Ok(a) = StructArray::try_new(NM.iter().map(|s| Arc::<str>::from(*s)).collect::<Vec<_>>().into(), plains, n, Validity::AllValid) {
        out.push(("nullable".into(), a.into_array()));
    }
    out.into_iter().map(|(e, arr)| Table { desc: format!("{}({what})", e.replace('(', "<").replace(')', ">")), rows: rows.to_vec(), arr }).collect()
}

pub fn c26(ctx: &Ctx) {
    let rows = product();
    let whole = Table { desc: "all".into(), arr: struct_of(&NM, cols_of(&rows).iter().map(plain).collect(), rows.len()), rows: rows.clone() };
    let at = atoms(false);
    let atp = atoms(true);
    // depth 1 and 2 over every combination of values
    at.par_iter().enumerate().for_each(|(k, x)| {
        ctx.state();
        ctx.tag("atom");
        check_expr(ctx, x, &whole, true);
        check_expr(ctx, &atp[k], &whole, true);
        for (j, y) in at.iter().enumerate() {
            if !ctx.thorough && (k * 31 + j * 7) % 2 != 0 {
                continue;
            }
            for o in [Operator::And, Operator::Or] {
                ctx.state();
                ctx.tag("depth2");
                let e = bin(o, x.clone(), if (k + j) % 2 == 0 { y.clone() } else { atp[j].clone() });
                ctx.sample(|| e.show(&NM));
                check_expr(ctx, &e, &whole, true);
            }
        }
    });
    ctx.bound(format!("{} atomic predicates (columns by name and by position, literals, nulls, every comparison of two of them of a type) and {} conjunctions and disjunctions of two of them, over a table of every combination of values of 5 columns ({} rows)", at.len() * 2, if ctx.thorough { "all" } else { "half of the" }, rows.len()));

    let c = |k: usize| E::Col(k, k % 2 == 1);
    let i = |x: i128| E::Lit(V::of_int(PType::I32, x), prim(PType::I32, false));
    let b = |v: V| E::Lit(v, DType::Bool(nn(true)));
    let mut few = vec![
        c(3), c(4), b(V::B(true)), b(V::B(false)), b(V::Null),
        bin(Operator::Eq, c(0), i(1)), bin(Operator::Lt, c(0), c(1)), bin(Operator::NotEq, c(2), E::Lit(V::s("a"), DType::Utf8(nn(false)))),
        bin(Operator::Gte, i(2), c(1)), bin(Operator::Eq, c(3), c(4)), bin(Operator::Gt, c(0), i(7)),
    ];
    if ctx.thorough {
        few.extend([bin(Operator::Lte, c(2), E::Lit(V::s("b"), DType::Utf8(nn(true)))), bin(Operator::NotEq, c(3), b(V::B(true))), bin(Operator::Eq, c(0), E::Lit(V::Null, prim(PType::I32, true)))]);
    }
    let ao = [Operator::And, Operator::Or];
    few.par_iter().for_each(|x| {
        for y in &few {
            for o in CMPS {
                ctx.state();
                ctx.tag("compare of predicates");
                check_expr(ctx, &bin(o, x.clone(), y.clone()), &whole, false);
            }
            for z in &few {
                for p in ao {
                    for q in ao {
                        ctx.state();
                        ctx.tag("depth3");
                        check_expr(ctx, &bin(q, bin(p, x.clone(), y.clone()), z.clone()), &whole, true);
                        check_expr(ctx, &bin(q, x.clone(), bin(p, y.clone(), z.clone())), &whole, true);
                        for w in few.iter().step_by(if ctx.thorough { 1 } else { 4 }) {
                            ctx.tag("depth3 of four");
                            check_expr(ctx, &bin(q, bin(p, x.clone(), y.clone()), bin(ao[(p != q) as usize], z.clone(), w.clone())), &whole, ctx.thorough);
                        }
                    }
                }
            }
        }
    });
    ctx.bound(format!("all trees of three of {} predicates, trees of four, comparisons of two predicates", few.len()));

    // every kind of table
    let mut small: Vec<Vec<Vec<V>>> = vec![vec![]];
    for (k, r) in rows.iter().enumerate() {
        if k % 5 == 0 {
            small.push(vec![r.clone()]);
            small.push(vec![r.clone(); 2]);
            small.push(vec![r.clone(), rows[(k * 7 + 13) % rows.len()].clone()]);
        }
        if k % 9 == 0 {
            small.push(vec![rows[(k * 11 + 40) % rows.len()].clone(), r.clone(), rows[(k * 5 + 71) % rows.len()].clone(), r.clone()]);
        }
    }
    small.push((0..40).map(|k| rows[(k * 47) % rows.len()].clone()).collect());
    small.push((0..70).map(|k| rows[(k / 30 * 17) % rows.len()].clone()).collect());
    let mut preds: Vec<E> = at.iter().step_by(5).chain(&few).cloned().collect();
    for (k, x) in few.iter().enumerate() {
        for (j, y) in few.iter().enumerate() {
            preds.push(bin(ao[(k + j) % 2], x.clone(), y.clone()));
        }
    }
    small.par_iter().enumerate().for_each(|(k, r)| {
        for t in tables(r, &format!("t{k}"), if ctx.thorough { Rich::Full } else { Rich::Core }) {
            ctx.state();
            ctx.tag("table");
            for (j, e) in preds.iter().enumerate() {
                if ctx.thorough || (j + k) % 3 == 0 {
                    check_expr(ctx, e, &t, false);
                }
            }
        }
    });
    ctx.bound(format!("{} predicates over {} small tables, each in every encoding of every column, chunked, constant, sparse, sliced, taken, with warm statistics", preds.len(), small.len()));
    selects(ctx, &small);
    singles(ctx);
    meta(ctx, &few, &at);
}

/// Selections of columns.
fn selects(ctx: &Ctx, small: &[Vec<Vec<V>>]) {
    let mut fs: Vec<Field> = vec![];
    for (k, n) in NM.iter().enumerate() {
        if k != 2 {
            fs.push(Field::Name(n.to_string()));
        }
        if k != 1 {
            fs.push(Field::Index(k));
        }
    }
    fs.push(Field::Name("zz".into()));
    fs.push(Field::Index(5));
    let pos = |f: &Field| match f {
        Field::Name(n) => NM.iter().position(|x| x == n),
        Field::Index(i) => (*i < 5).then_some(*i),
    };
    let mut lists: Vec<Vec<Field>> = vec![];
    for n in 0..=3 {
        lists.extend(seqs(&fs, n));
    }
    let some: Vec<usize> = if ctx.thorough { (0..small.len()).step_by(4).collect() } else { vec![0, 1, 7, small.len() - 2] };
    let ts: Vec<Table> = some.iter().flat_map(|k| tables(&small[*k], &format!("t{k}"), Rich::Core)).collect();
    lists.par_iter().enumerate().for_each(|(li, l)| {
        ctx.state();
        ctx.tag("select");
        for (ti, t) in ts.iter().enumerate() {
            if !ctx.thorough && ti > 0 && (li + ti) % 8 != 0 {
                continue;
            }
            let cols = cols_of(&t.rows);
            let want = |ks: &[usize]| rows_of(&ks.iter().map(|k| NM[*k]).collect::<Vec<_>>(), &ks.iter().map(|k| cols[*k].clone()).collect::<Vec<_>>(), t.rows.len());
            let is = |a: &Array, w: &Col| {
                if a.dtype().as_nullable() != w.dtype.as_nullable() {
                    return Err(format!("type is {} instead of {}", a.dtype(), w.dtype));
                }
                if t.desc.starts_with("constant") {
                    // a constant table cannot be decoded whole
                    let DType::Struct(st, _) = &w.dtype else { unreachable!() };
                    for (k, d) in st.dtypes().iter().enumerate() {
                        let f = a.with_dyn(|a| a.as_struct_array_unchecked().field(k)).ok_or("a selected column is missing")?;
                        let vals = w.vals.iter().map(|r| if let V::Struct(x) = r { x[k].clone() } else { V::Null }).collect();
                        same(&f, &Col::new(d.clone(), vals)).map_err(|m| format!("column {k}: {m}"))?;
                    }
                    return Ok(());
                }
                same(a, &Col::new(a.dtype().clone(), w.vals.clone()))
            };
            let inc: Option<Vec<usize>> = l.iter().map(pos).collect();
            ctx.check(|| format!("include|{}|{l:?}", t.desc), || {
                match (attempt(|| es(Select::include(l.clone()).evaluate(&t.arr))), &inc) {
                    (Err(m), _) if m.starts_with("panic") => Err(m),
                    (Ok(a), Some(ks)) => is(&a, &want(ks)),
                    (Err(m), Some(_)) => Err(m),
                    (Ok(_), None) => Err("a selection of a missing column was accepted".into()),
                    (Err(_), None) => Ok(()),
                }
            });
            let missing_pos = l.iter().any(|f| matches!(f, Field::Index(5)));
            let ex: Vec<usize> = (0..5).filter(|k| !l.iter().any(|f| pos(f) == Some(*k))).collect();
            ctx.check(|| format!("exclude|{}|{l:?}", t.desc), || {
                match attempt(|| es(Select::exclude(l.clone()).evaluate(&t.arr))) {
                    Err(m) if m.starts_with("panic") => Err(m),
                    Err(m) => if inc.is_none() { Ok(()) } else { Err(m) },
                    Ok(_) if missing_pos => Err("the exclusion of a missing position was accepted".into()),
                    Ok(a) => is(&a, &want(&ex)),
                }
            });
        }
        ctx.check(|| format!("select-references|{l:?}"), || {
            let s = Select::include(l.clone());
            let got: HashSet<Field> = s.references().into_iter().cloned().collect();
            if got != l.iter().cloned().collect::<HashSet<_>>() {
                return Err(format!("references are {got:?}"));
            }
            Ok(())
        });
    });
    ctx.bound("selections and exclusions: all lists of up to three fields by name and position, repeated and missing ones included");
}

/// Expressions over a column that is no table.
fn singles(ctx: &Ctx) {
    let al = alphabets();
    let ty = types();
    for (k, d) in ty.iter().enumerate() {
        let lits: Vec<E> = al[k].iter().chain([&V::Null]).map(|v| E::Lit(v.clone(), d.as_nullable())).chain([E::Id]).collect();
        let mut es_: Vec<E> = vec![];
        for l in &lits {
            for o in CMPS {
                es_.push(bin(o, E::Id, l.clone()));
                es_.push(bin(o, l.clone(), E::Id));
            }
        }
        let base = es_.clone();
        for x in base.iter().step_by(3) {
            for y in base.iter().step_by(5) {
                es_.push(bin(Operator::And, x.clone(), y.clone()));
                es_.push(bin(Operator::Or, y.clone(), x.clone()));
            }
        }
        if matches!(d, DType::Bool(_)) {
            es_.push(E::Id);
            for x in &base {
                es_.push(bin(Operator::And, E::Id, x.clone()));
                es_.push(bin(Operator::Or, x.clone(), E::Id));
            }
        }
        let mut cols: Vec<Col> = vec![];
        for n in 0..=3 {
            cols.extend(seqs(&al[k], n).into_iter().map(|v| Col::new(d.clone(), v)));
        }
        cols.par_iter().for_each(|c| {
            let rows: Vec<Vec<V>> = c.vals.iter().map(|v| vec![v.clone()]).collect();
            for (en, arr) in encs_of(c, Rich::Core) {
                ctx.state();
                ctx.tag("column");
                let t = Table { desc: format!("{}({})", base_enc(&en), c.desc()), rows: rows.clone(), arr };
                ctx.check(|| format!("identity|{}", t.desc), || same(&es(Identity.evaluate(&t.arr))?, c));
                for e in &es_ {
                    check_expr(ctx, e, &t, false);
                }
                // a literal is as long as what it is evaluated over
                for l in &lits {
                    if let E::Lit(v, d) = l {
                        ctx.check(|| format!("literal|{}|{v:?}", t.desc), || {
                            let r = es(l.build(&NM).evaluate(&t.arr))?;
                            if r.dtype() != d {
                                return Err(format!("type is {} instead of {d}", r.dtype()));
                            }
                            same(&r, &Col::new(d.clone(), vec![v.clone(); c.len()]))
                        });
                    }
                }
            }
        });
    }
    ctx.bound("expressions of the input itself over columns of 0..=3 values in every encoding; literals");
}

/// Equality of expressions, operators mirrored and inverted.
fn meta(ctx: &Ctx, few: &[E], at: &[E]) {
    let mut xs: Vec<(String, Arc<dyn VortexExpr>)> = few.iter().chain(at.iter().step_by(7)).map(|e| (e.show(&NM) + &format!("{e:?}"), e.build(&NM))).collect();
    xs.push(("it".into(), Arc::new(Identity)));
    for l in [vec![], vec![Field::from("a")], vec![Field::from(0)], vec![Field::from("a"), Field::from("b")], vec![Field::from("b"), Field::from("a")]] {
        xs.push((format!("include{l:?}"), Arc::new(Select::include(l.clone()))));
        xs.push((format!("exclude{l:?}"), Arc::new(Select::exclude(l))));
    }
    // some twice, built anew
    for e in few {
        xs.push((e.show(&NM) + &format!("{e:?}"), e.build(&NM)));
    }
    for (n, x) in &xs {
        for (m, y) in &xs {
            ctx.check(|| format!("equality|{n}|{m}"), || {
                for got in [x.eq(y.as_any()), (**x).eq(y as &dyn Any)] {
                    if got != (n == m) {
                        return Err(format!("equality is {got}"));
                    }
                }
                Ok(())
            });
        }
        ctx.check(|| format!("equality|{n}|other"), || if x.eq(&7i32 as &dyn Any) { Err("equal to a number".into()) } else { Ok(()) });
    }
    let vals = [V::of_int(PType::I32, 1), V::of_int(PType::I32, 2), V::of_int(PType::I32, 3)];
    for o in CMPS {
        for x in &vals {
            for y in &vals {
                let ev = |o: Operator, x: &V, y: &V| E::eval(&bin(o, E::Lit(x.clone(), prim(PType::I32, false)), E::Lit(y.clone(), prim(PType::I32, false))), &[]);
                ctx.check(|| format!("swap|{o}|{x:?}|{y:?}"), || if ev(o, x, y) == ev(o.swap(), y, x) { Ok(()) } else { Err(format!("mirrored as {}", o.swap())) });
                ctx.check(|| format!("inverse|{o}|{x:?}|{y:?}"), || match o.inverse() {
                    Some(i) if ev(o, x, y) != ev(i, x, y) => Ok(()),
                    i => Err(format!("inverted as {i:?}")),
                });
            }
        }
    }
    for o in [Operator::And, Operator::Or] {
        ctx.check(|| format!("swap|{o}"), || if o.swap() == o && o.inverse().is_none() { Ok(()) } else { Err("mirrored or inverted as another".into()) });
    }
    ctx.bound("equality of expressions is that of their structure; operators mirrored and inverted");
}
