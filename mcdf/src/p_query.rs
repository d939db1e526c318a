//! Scans with pushed-down filters, and SQL queries, over in-memory tables and files.
use std::any::Any;
use std::sync::Arc;

use arrow_array::RecordBatch;
use arrow_schema::SchemaRef;
use datafusion::catalog::TableProvider;
use datafusion::logical_expr::{Expr, Operator as DOp, TableProviderFilterPushDown};
use datafusion::physical_plan::{collect, displayable, ExecutionPlan, ExecutionPlanProperties};
use futures::StreamExt;
use datafusion::prelude::{col, in_list, lit, SessionConfig, SessionContext};
use datafusion_common::ScalarValue as DSv;
use datafusion_execution::object_store::ObjectStoreUrl;
use object_store::memory::InMemory;
use object_store::path::Path;
use object_store::ObjectStore;
use rayon::prelude::*;
use vortex::array::*;
use vortex::arrow::infer_schema;
use vortex::stats::{ArrayStatistics, Stat};
use vortex::stream::ArrayStreamAdapter;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, Context, IntoArray};
use vortex_datafusion::memory::{VortexMemTable, VortexMemTableOptions};
use vortex_datafusion::persistent::config::{VortexFile, VortexTableOptions};
use vortex_datafusion::persistent::provider::VortexFileTableProvider;
use vortex_datafusion::SessionContextExt;
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;
use vortex_serde::layouts::LayoutWriter;

use crate::arrow_read::read_arrow;
use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::report::{attempt, Ctx};

const NM: [&str; 9] = ["a", "b", "s", "t", "f", "d", "n", "u", "w"];

fn i32v(x: i128) -> V {
    V::of_int(PType::I32, x)
}
fn i64v(x: i128) -> V {
    V::of_int(PType::I64, x)
}
fn date_fam() -> Fam {
    temporal("date32", PType::I32, &[0, 1, 20000], true, vortex_datetime_dtype::TimeUnit::D, None, 1)
}
fn stamp_fam() -> Fam {
    temporal("stamp", PType::I64, &[0, 1, 1_000_000], true, vortex_datetime_dtype::TimeUnit::Us, None, 0)
}
fn types() -> Vec<DType> {
    vec![prim(PType::I32, true), prim(PType::I64, false), DType::Utf8(nn(true)), DType::Bool(nn(true)), prim(PType::F64, true), date_fam().dtype, DType::Bool(nn(false)), DType::Utf8(nn(false)), stamp_fam().dtype]
}
fn alphabets() -> Vec<Vec<V>> {
    vec![
        vec![i32v(1), V::Null, i32v(2), i32v(3)],
        vec![i64v(1), i64v(2)],
        vec![V::s("a"), V::s("b"), V::Null, V::s("")],
        vec![V::Null, V::B(true), V::B(false)],
        vec![V::f64(0.5), V::Null, V::f64(1.5)],
        vec![i32v(0), i32v(1), V::Null],
        vec![V::B(true), V::B(false)],
        vec![V::s("x"), V::s("a text too long for a view"), V::s("y")],
        vec![i64v(1_000_000), V::Null, i64v(0), i64v(1)],
    ]
}

// queries ----------------------------------------------------------------------------------------

/// A predicate or operand.
#[derive(Clone, Debug)]
enum Q {
    Col(usize),
    /// a value of the type of a column
    Lit(V, usize),
    Cmp(DOp, Box<Q>, Box<Q>),
    And(Box<Q>, Box<Q>),
    Or(Box<Q>, Box<Q>),
    Not(Box<Q>),
    IsNull(Box<Q>),
    IsNotNull(Box<Q>),
    In(usize, Vec<V>, bool),
    Between(usize, V, V),
    /// column + number compared
    Plus(usize, i64, DOp, i64),
}
const CMPS: [DOp; 6] = [DOp::Eq, DOp::NotEq, DOp::Lt, DOp::LtEq, DOp::Gt, DOp::GtEq];
fn cmp(o: DOp, x: Q, y: Q) -> Q {
    Q::Cmp(o, Box::new(x), Box::new(y))
}
fn and(x: Q, y: Q) -> Q {
    Q::And(Box::new(x), Box::new(y))
}
fn or(x: Q, y: Q) -> Q {
    Q::Or(Box::new(x), Box::new(y))
}
fn not(x: Q) -> Q {
    Q::Not(Box::new(x))
}

fn dsv(v: &V, k: usize) -> DSv {
    let int = v.int();
    let text = match v {
        V::S(b) => Some(String::from_utf8(b.clone()).unwrap()),
        _ => None,
    };
    match k {
        0 => DSv::Int32(int.map(|x| x as i32)),
        1 => DSv::Int64(int.map(|x| x as i64)),
        2 => DSv::Utf8View(text),
        3 => DSv::Boolean(if let V::B(b) = v { Some(*b) } else { None }),
        4 => DSv::Float64(v.float()),
        6 => DSv::Boolean(if let V::B(b) = v { Some(*b) } else { None }),
        7 => DSv::Utf8View(text),
        8 => DSv::TimestampMicrosecond(int.map(|x| x as i64), None),
        _ => DSv::Date32(int.map(|x| x as i32)),
    }
}
fn sql_lit(v: &V, k: usize) -> String {
    if v.is_null() {
        return "NULL".into();
    }
    match k {
        0 | 1 => v.int().unwrap().to_string(),
        2 | 7 => format!("'{}'", if let V::S(b) = v { String::from_utf8(b.clone()).unwrap() } else { unreachable!() }),
        3 | 6 => (v == &V::B(true)).to_string(),
        4 => format!("{:?}", v.float().unwrap()),
        8 => match v.int().unwrap() {
            0 => "TIMESTAMP '1970-01-01T00:00:00'".into(),
            1 => "TIMESTAMP '1970-01-01T00:00:00.000001'".into(),
            1_000_000 => "TIMESTAMP '1970-01-01T00:00:01'".into(),
            _ => unreachable!(),
        },
        _ => match v.int().unwrap() {
            0 => "DATE '1970-01-01'".into(),
            1 => "DATE '1970-01-02'".into(),
            20000 => "DATE '2024-10-04'".into(),
            _ => unreachable!(),
        },
    }
}
fn holds(o: DOp, c: std::cmp::Ordering) -> bool {
    match o {
        DOp::Eq => c.is_eq(),
        DOp::NotEq => c.is_ne(),
        DOp::Lt => c.is_lt(),
        DOp::LtEq => c.is_le(),
        DOp::Gt => c.is_gt(),
        DOp::GtEq => c.is_ge(),
        _ => unreachable!(),
    }
}
/// Numbers of different width compare by value.
fn ord(x: &V, y: &V) -> std::cmp::Ordering {
    match (x.int(), y.int()) {
        (Some(a), Some(b)) => a.cmp(&b),
        _ => match (x.float().or(x.int().map(|i| i as f64)), y.float().or(y.int().map(|i| i as f64))) {
            (Some(a), Some(b)) => a.total_cmp(&b),
            _ => vcmp(x, y).expect("operands of one kind"),
        },
    }
}

impl Q {
    fn sql(&self) -> String {
        match self {
            Q::Col(k) => NM[*k].into(),
            Q::Lit(v, k) => sql_lit(v, *k),
            Q::Cmp(o, x, y) => format!("({} {o} {})", x.sql(), y.sql()),
            Q::And(x, y) => format!("({} AND {})", x.sql(), y.sql()),
            Q::Or(x, y) => format!("({} OR {})", x.sql(), y.sql()),
            Q::Not(x) => format!("(NOT {})", x.sql()),
            Q::IsNull(x) => format!("({} IS NULL)", x.sql()),
            Q::IsNotNull(x) => format!("({} IS NOT NULL)", x.sql()),
            Q::In(k, vs, neg) => format!("({} {}IN ({}))", NM[*k], if *neg { "NOT " } else { "" }, vs.iter().map(|v| sql_lit(v, *k)).collect::<Vec<_>>().join(", ")),
            Q::Between(k, a, b) => format!("({} BETWEEN {} AND {})", NM[*k], sql_lit(a, *k), sql_lit(b, *k)),
            Q::Plus(k, n, o, m) => format!("({} + {n} {o} {m})", NM[*k]),
        }
    }
    fn expr(&self) -> Expr {
        let bin = |x: &Q, o: DOp, y: &Q| datafusion::logical_expr::binary_expr(x.expr(), o, y.expr());
        match self {
            Q::Col(k) => col(NM[*k]),
            Q::Lit(v, k) => lit(dsv(v, *k)),
            Q::Cmp(o, x, y) => bin(x, *o, y),
            Q::And(x, y) => bin(x, DOp::And, y),
            Q::Or(x, y) => bin(x, DOp::Or, y),
            Q::Not(x) => Expr::Not(Box::new(x.expr())),
            Q::IsNull(x) => x.expr().is_null(),
            Q::IsNotNull(x) => x.expr().is_not_null(),
            Q::In(k, vs, neg) => in_list(col(NM[*k]), vs.iter().map(|v| lit(dsv(v, *k))).collect(), *neg),
            Q::Between(k, a, b) => col(NM[*k]).between(lit(dsv(a, *k)), lit(dsv(b, *k))),
            Q::Plus(k, n, o, m) => datafusion::logical_expr::binary_expr(col(NM[*k]) + lit(*n), *o, lit(*m)),
        }
    }
    fn eval(&self, r: &[V]) -> V {
        let kleene = |x: V, y: V, dom: bool| match (x, y) {
            (V::B(p), V::B(q)) => V::B(if dom { p || q } else { p && q }),
            (V::B(p), _) | (_, V::B(p)) if p == dom => V::B(dom),
            _ => V::Null,
        };
        let compare = |o: DOp, x: V, y: V| if x.is_null() || y.is_null() { V::Null } else { V::B(holds(o, ord(&x, &y))) };
        match self {
            Q::Col(k) => r[*k].clone(),
            Q::Lit(v, _) => v.clone(),
            Q::Cmp(o, x, y) => compare(*o, x.eval(r), y.eval(r)),
            Q::And(x, y) => kleene(x.eval(r), y.eval(r), false),
            Q::Or(x, y) => kleene(x.eval(r), y.eval(r), true),
            Q::Not(x) => match x.eval(r) {
                V::B(b) => V::B(!b),
                _ => V::Null,
            },
            Q::IsNull(x) => V::B(x.eval(r).is_null()),
            Q::IsNotNull(x) => V::B(!x.eval(r).is_null()),
            Q::In(k, vs, neg) => {
                let any = vs.iter().fold(V::B(false), |acc, v| kleene(acc, compare(DOp::Eq, r[*k].clone(), v.clone()), true));
                match any {
                    V::B(b) => V::B(b != *neg),
                    _ => V::Null,
                }
            }
            Q::Between(k, a, b) => kleene(compare(DOp::GtEq, r[*k].clone(), a.clone()), compare(DOp::LtEq, r[*k].clone(), b.clone()), false),
            Q::Plus(k, n, o, m) => match r[*k].int() {
                Some(x) => V::B(holds(*o, (x + *n as i128).cmp(&(*m as i128)))),
                None => V::Null,
            },
        }
    }
    fn selects(&self, r: &[V]) -> bool {
        self.eval(r) == V::B(true)
    }
}

/// Predicates of one operator.
fn atoms() -> Vec<Q> {
    let c = Q::Col;
    let lits: Vec<(usize, Vec<V>)> = vec![
        (0, vec![i32v(2), i32v(7), V::Null]),
        (1, vec![i64v(1)]),
        (2, vec![V::s("a"), V::s("")]),
        (3, vec![V::B(true), V::B(false)]),
        (4, vec![V::f64(0.5)]),
        (5, vec![i32v(1)]),
        (6, vec![V::B(true)]),
        (7, vec![V::s("x"), V::s("a text too long for a view")]),
        (8, vec![i64v(1)]),
    ];
    let mut v = vec![c(3), c(6), Q::Lit(V::B(true), 3), Q::Lit(V::B(false), 3), Q::Lit(V::Null, 3)];
    for (k, ls) in &lits {
        for l in ls {
            for o in CMPS {
                v.push(cmp(o, c(*k), Q::Lit(l.clone(), *k)));
            }
            v.push(cmp(DOp::Lt, Q::Lit(l.clone(), *k), c(*k)));
            v.push(cmp(DOp::GtEq, Q::Lit(l.clone(), *k), c(*k)));
        }
        for o in CMPS {
            v.push(cmp(o, c(*k), c(*k)));
        }
    }
    v
}
/// A few predicates of each kind.
fn few() -> Vec<Q> {
    let c = Q::Col;
    vec![
        c(3),
        Q::Lit(V::B(true), 3),
        Q::Lit(V::B(false), 3),
        cmp(DOp::Eq, c(0), Q::Lit(i32v(2), 0)),
        cmp(DOp::Gt, c(0), Q::Lit(i32v(1), 0)),
        cmp(DOp::LtEq, c(1), Q::Lit(i64v(1), 1)),
        cmp(DOp::NotEq, c(2), Q::Lit(V::s("a"), 2)),
        cmp(DOp::GtEq, Q::Lit(V::s("a"), 2), c(2)),
        cmp(DOp::Lt, c(4), Q::Lit(V::f64(1.0), 4)),
        cmp(DOp::Eq, c(5), Q::Lit(i32v(1), 5)),
        cmp(DOp::Eq, c(0), Q::Lit(i32v(77), 0)),
        c(6),
        cmp(DOp::Gt, c(7), Q::Lit(V::s("b"), 7)),
        cmp(DOp::LtEq, Q::Lit(i64v(1), 8), c(8)),
    ]
}
/// Predicates the integration need not take over.
fn others() -> Vec<Q> {
    let c = |k| Box::new(Q::Col(k));
    vec![
        Q::IsNull(c(0)),
        Q::IsNotNull(c(0)),
        Q::IsNull(c(3)),
        Q::IsNotNull(c(2)),
        Q::Not(c(3)),
        not(few()[3].clone()),
        not(and(few()[0].clone(), few()[4].clone())),
        not(or(few()[0].clone(), few()[4].clone())),
        Q::In(0, vec![i32v(1), i32v(3)], false),
        Q::In(0, vec![i32v(1), i32v(2)], true),
        Q::In(2, vec![V::s("a"), V::s("zz"), V::s("b"), V::s("")], false),
        Q::Between(0, i32v(2), i32v(3)),
        Q::Between(2, V::s("a"), V::s("c")),
        Q::Plus(1, 1, DOp::Gt, 2),
        cmp(DOp::Eq, Q::Col(3), Q::IsNull(c(0))),
    ]
}

// tables -----------------------------------------------------------------------------------------

struct Table {
    desc: String,
    rows: Vec<Vec<V>>,
    arr: Array,
}
fn cols_of(rows: &[Vec<V>]) -> Vec<Col> {
    types().into_iter().enumerate().map(|(k, d)| Col::new(d, rows.iter().map(|r| r[k].clone()).collect())).collect()
}
fn struct_of(arrays: Vec<Array>, n: usize) -> Array {
    StructArray::try_new(NM.iter().map(|s| Arc::<str>::from(*s)).collect::<Vec<_>>().into(), arrays, n, Validity::NonNullable)
        .expect("fields of equal length")
        .into_array()
}
fn row(k: usize) -> Vec<V> {
    alphabets().iter().enumerate().map(|(c, a)| a[(k * [1, 1, 3, 5, 7, 11, 3, 5, 7][c] + k / [1, 2, 3, 5, 4, 7, 5, 4, 6][c]) % a.len()].clone()).collect()
}
fn encs_of(c: &Col, rich: Rich) -> Vec<(String, Array)> {
    encodings(c, rich).into_iter().filter_map(|(n, r)| r.ok().map(|a| (n, a))).filter(|(_, a)| *a.dtype() == c.dtype && attempt(|| same(a, c)).is_ok()).collect()
}
fn warm(a: &Array) {
    for s in [Stat::Min, Stat::Max, Stat::NullCount, Stat::IsConstant, Stat::IsSorted, Stat::TrueCount] {
        let _ = crate::report::guard(|| a.statistics().compute(s));
    }
}

fn tables(rows: &[Vec<V>], what: &str, encoded: bool, rich: Rich) -> Vec<Table> {
    let cols = cols_of(rows);
    let n = rows.len();
    let plains = || -> Vec<Array> { cols.iter().map(plain).collect() };
    let part = |a: usize, b: usize| struct_of(cols.iter().map(|c| plain(&c.slice(a, b))).collect(), b - a);
    let d = part(0, n).dtype().clone();
    let mut out: Vec<(String, Array)> = vec![("plain".into(), part(0, n))];
    let cut = |ends: &[usize]| -> Vec<Array> {
        let mut at = 0;
        ends.iter()
            .map(|e| {
                let p = part(at, *e);
                at = *e;
                p
            })
            .collect()
    };
    let mut cuts = if n <= 4 { chunk_cuts(n) } else { few_cuts(n) };
    if n > 8 {
        cuts.push(vec![1, 2, 3, n / 2, n / 2 + 1, n - 1, n]);
    }
    cuts.dedup();
    for ends in cuts {
        out.push((format!("chunked{ends:?}"), ChunkedArray::try_new(cut(&ends), d.clone()).unwrap().into_array()));
    }
    if n == 0 {
        out.push(("nochunks".into(), ChunkedArray::try_new(vec![], d.clone()).unwrap().into_array()));
    }
    // columns chunked, each differently
    let cc: Vec<Array> = cols.iter().enumerate().filter_map(|(k, c)| chunked_with(c, &[(n * (k + 1)) / NM.len(), n], |_, p| Ok(plain(p))).ok()).collect();
    if cc.len() == NM.len() {
        out.push(("columns-chunked".into(), struct_of(cc, n)));
    }
    if encoded {
        let all: Vec<Vec<(String, Array)>> = cols.iter().map(|c| encs_of(c, rich)).collect();
        for (k, v) in all.iter().enumerate() {
            for (en, a) in v {
                let mut p = plains();
                p[k] = a.clone();
                out.push((format!("{}={en}", NM[k]), struct_of(p, n)));
            }
        }
        for j in 0..all.iter().map(Vec::len).max().unwrap_or(0) {
            let p: Vec<Array> = all.iter().map(|v| v[j % v.len()].1.clone()).collect();
            // two chunks, one encoded
            let a = struct_of(p, n);
            out.push((format!("all{j}"), a.clone()));
        }
        let w = struct_of(plains(), n);
        for k in 0..NM.len() {
            if let Some(c) = w.with_dyn(|a| a.as_struct_array_unchecked().field(k)) {
                warm(&c);
            }
        }
        warm(&w);
        out.push(("warm".into(), w));
        let ch = cut(&[n / 2, n]);
        for c in &ch {
            for k in 0..NM.len() {
                if let Some(c) = c.with_dyn(|a| a.as_struct_array_unchecked().field(k)) {
                    warm(&c);
                }
            }
        }
        out.push(("warm-chunks".into(), ChunkedArray::try_new(ch, d.clone()).unwrap().into_array()));
    }
    out.into_iter().map(|(e, arr)| Table { desc: format!("{}({what})", e.replace('(', "<").replace(')', ">")), rows: rows.to_vec(), arr }).collect()
}

// scans ------------------------------------------------------------------------------------------

thread_local! {
    static RT: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
}
/// Run to the end on this thread; what takes longer than this waits for a wake-up that never comes.
fn run<T>(f: impl std::future::Future<Output = Result<T, String>>) -> Result<T, String> {
    RT.with(|rt| {
        rt.block_on(async {
            match tokio::time::timeout(std::time::Duration::from_secs(60), f).await {
                Ok(r) => r,
                Err(_) => Err("no answer within a minute".into()),
            }
        })
    })
}
fn er<T>(r: datafusion_common::Result<T>) -> Result<T, String> {
    r.map_err(|e| e.to_string().lines().next().unwrap_or("").to_string())
}

fn rows_of(batches: &[RecordBatch], schema: &SchemaRef) -> Result<Vec<Vec<V>>, String> {
    let mut out = vec![];
    for b in batches {
        if b.num_columns() != schema.fields().len() {
            return Err(format!("{} columns instead of {}", b.num_columns(), schema.fields().len()));
        }
        let cols: Vec<Vec<V>> = b.columns().iter().map(read_arrow).collect::<Result<_, _>>()?;
        for (k, f) in schema.fields().iter().enumerate() {
            if b.column(k).data_type() != f.data_type() || b.schema().field(k).name() != f.name() {
                return Err(format!("column {k} is {} {} instead of {} {}", b.schema().field(k).name(), b.column(k).data_type(), f.name(), f.data_type()));
            }
            if !f.is_nullable() && cols[k].iter().any(V::is_null) {
                return Err(format!("nulls in column {k}, which has none"));
            }
        }
        for i in 0..b.num_rows() {
            out.push(cols.iter().map(|c| c[i].clone()).collect());
        }
    }
    Ok(out)
}
fn diff_rows(got: &[Vec<V>], want: &[Vec<V>]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} rows instead of {}: rows are {got:?} instead of {want:?}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Err(format!("row {i} is {g:?} instead of {w:?}"));
        }
    }
    Ok(())
}
fn project(rows: &[Vec<V>], p: &[usize], keep: impl Fn(&[V]) -> bool) -> Vec<Vec<V>> {
    rows.iter().filter(|r| keep(r)).map(|r| p.iter().map(|k| r[*k].clone()).collect()).collect()
}

/// One scan, as the query engine would ask for it: what the table promises to filter, it filters.
fn scan(sc: &SessionContext, t: &dyn TableProvider, rows: &[Vec<V>], fs: &[Q], p: Option<&Vec<usize>>, on: bool) -> Result<(), String> {
    let exprs: Vec<Expr> = fs.iter().map(Q::expr).collect();
    let how = er(t.supports_filters_pushdown(&exprs.iter().collect::<Vec<_>>()))?;
    if how.len() != fs.len() {
        return Err(format!("{} answers about {} filters", how.len(), fs.len()));
    }
    if !on && how.iter().any(|h| *h != TableProviderFilterPushDown::Unsupported) {
        return Err("filters are taken over although that is turned off".into());
    }
    let sent: Vec<(Q, Expr, bool)> = fs
        .iter()
        .zip(exprs)
        .zip(how)
        .filter(|(_, h)| *h != TableProviderFilterPushDown::Unsupported)
        .map(|((q, e), h)| (q.clone(), e, h == TableProviderFilterPushDown::Exact))
        .collect();
    let es: Vec<Expr> = sent.iter().map(|(_, e, _)| e.clone()).collect();
    let (plan, batches) = run(async {
        let plan = er(t.scan(&sc.state(), p, &es, None).await)?;
        let mut b = vec![];
        if plan.output_partitioning().partition_count() != 1 {
            b = er(collect(plan.clone(), sc.task_ctx()).await)?;
        } else {
            // what a stream says is left of it is
            let mut st = er(plan.execute(0, sc.task_ctx()))?;
            let mut hints = vec![st.size_hint()];
            while let Some(x) = st.next().await {
                b.push(er(x)?);
                hints.push(st.size_hint());
            }
            for (k, (lo, hi)) in hints.iter().enumerate() {
                let left = b.len() - k;
                if *lo > left || hi.is_some_and(|h| h < left) {
                    return Err(format!("a stream with {left} batches left says between {lo} and {hi:?}"));
                }
            }
        }
        Ok((plan, b))
    })?;
    let all: Vec<usize> = (0..NM.len()).collect();
    let cols = p.unwrap_or(&all);
    let schema = plan.schema();
    let names: Vec<&str> = schema.fields().iter().map(|f| f.name().as_str()).collect();
    let want_names: Vec<&str> = cols.iter().map(|k| NM[*k]).collect();
    if names != want_names {
        return Err(format!("columns are {names:?} instead of {want_names:?}"));
    }
    stats_true(&*plan, &project(rows, cols, |_| true))?;
    let got = rows_of(&batches, &schema)?;
    let full = project(rows, cols, |r| sent.iter().all(|(q, _, _)| q.selects(r)));
    if sent.iter().all(|x| x.2) {
        diff_rows(&got, &full)
    } else {
        Err("a filter is taken over only partly".into())
    }
}
/// Statistics a plan calls exact are those of the rows it returns.
fn stats_true(plan: &dyn ExecutionPlan, rows: &[Vec<V>]) -> Result<(), String> {
    use datafusion_common::stats::Precision::Exact;
    let s = er(plan.statistics())?;
    let Exact(n) = s.num_rows else { return Ok(()) };
    if n != rows.len() {
        return Err(format!("the number of rows is said to be {n} instead of {}", rows.len()));
    }
    for (k, c) in s.column_statistics.iter().enumerate() {
        let vals: Vec<&V> = rows.iter().map(|r| &r[k]).collect();
        let nulls = vals.iter().filter(|v| v.is_null()).count();
        if let Exact(x) = c.null_count {
            if x != nulls {
                return Err(format!("column {k} is said to have {x} nulls instead of {nulls}"));
            }
        }
        let good: Vec<&V> = vals.into_iter().filter(|v| !v.is_null()).collect();
        for (what, p, w) in [("least", &c.min_value, good.iter().min_by(|a, b| ord(a, b))), ("greatest", &c.max_value, good.iter().max_by(|a, b| ord(a, b)))] {
            if let Exact(x) = p {
                let got = read_arrow(&er(x.to_array())?)?.remove(0);
                if w.is_some_and(|w| **w != got) || (w.is_none() && !got.is_null()) {
                    return Err(format!("the {what} value of column {k} is said to be {got:?} instead of {w:?}"));
                }
            }
        }
    }
    Ok(())
}

fn mem(a: &Array, on: bool) -> VortexMemTable {
    VortexMemTable::new(a.clone(), VortexMemTableOptions::default().with_pushdown(on))
}

// files ------------------------------------------------------------------------------------------

fn write(a: &Array) -> Result<Vec<u8>, String> {
    run(async {
        let parts: Vec<Array> = match ChunkedArray::try_from(a) {
            Ok(c) => c.chunks().collect(),
            Err(_) => vec![a.clone()],
        };
        let s = ArrayStreamAdapter::new(a.dtype().clone(), futures::stream::iter(parts.into_iter().map(Ok)));
        let w = es(LayoutWriter::new(Vec::<u8>::new()).write_array_columns_stream(s).await)?;
        es(w.finalize().await)
    })
}
fn file_table(files: &[Vec<u8>], d: &DType, which: usize) -> Result<(Arc<VortexFileTableProvider>, Arc<InMemory>, ObjectStoreUrl), String> {
    let store = Arc::new(InMemory::new());
    let mut vf = vec![];
    for (k, f) in files.iter().enumerate() {
        let name = format!("t{which}/part{k}.vtx");
        run(async { store.put(&Path::from(name.as_str()), f.clone().into()).await.map_err(|e| e.to_string()) })?;
        vf.push(VortexFile::new(name, f.len() as u64));
    }
    let url = ObjectStoreUrl::parse(format!("mem{which}://x")).map_err(|e| e.to_string())?;
    let schema = Arc::new(es(infer_schema(d))?);
    let p = er(VortexFileTableProvider::try_new(url.clone(), VortexTableOptions::new(schema, vf, Arc::new(Context::default().with_encodings(all_encodings())))))?;
    Ok((Arc::new(p), store, url))
}
fn all_encodings() -> Vec<vortex::encoding::EncodingRef> {
    vec![
        &vortex_alp::ALPEncoding as vortex::encoding::EncodingRef,
        &vortex_alp::ALPRDEncoding,
        &vortex_bytebool::ByteBoolEncoding,
        &vortex_datetime_parts::DateTimePartsEncoding,
        &vortex_dict::DictEncoding,
        &vortex_fastlanes::BitPackedEncoding,
        &vortex_fastlanes::DeltaEncoding,
        &vortex_fastlanes::FoREncoding,
        &vortex_fsst::FSSTEncoding,
        &vortex_roaring::RoaringBoolEncoding,
        &vortex_roaring::RoaringIntEncoding,
        &vortex_runend::RunEndEncoding,
        &vortex_runend_bool::RunEndBoolEncoding,
        &vortex_zigzag::ZigZagEncoding,
    ]
}

// SQL --------------------------------------------------------------------------------------------

/// What a query selects: the text, and its meaning for the rows that pass the filter.
type Sel = (&'static str, fn(&[&Vec<V>]) -> Vec<Vec<V>>);
fn sels() -> Vec<Sel> {
    fn each(rs: &[&Vec<V>], ks: &[usize]) -> Vec<Vec<V>> {
        rs.iter().map(|r| ks.iter().map(|k| r[*k].clone()).collect()).collect()
    }
    fn best(rs: &[&Vec<V>], k: usize, max: bool) -> V {
        let v = rs.iter().map(|r| &r[k]).filter(|v| !v.is_null());
        if max { v.max_by(|a, b| ord(a, b)) } else { v.min_by(|a, b| ord(a, b)) }.cloned().unwrap_or(V::Null)
    }
    fn count(rs: &[&Vec<V>], k: usize) -> V {
        i64v(rs.iter().filter(|r| !r[k].is_null()).count() as i128)
    }
    vec![
        ("*", |rs| each(rs, &[0, 1, 2, 3, 4, 5, 6, 7, 8])),
        ("w, n, u", |rs| each(rs, &[8, 6, 7])),
        ("a", |rs| each(rs, &[0])),
        ("d, s, a", |rs| each(rs, &[5, 2, 0])),
        ("b, a, b AS c", |rs| each(rs, &[1, 0, 1])),
        ("u, max(b), count(s)", |rs| {
            let mut us: Vec<&V> = rs.iter().map(|r| &r[7]).collect();
            us.sort_by(|x, y| ord(x, y));
            us.dedup();
            us.into_iter()
                .map(|u| {
                    let g: Vec<&Vec<V>> = rs.iter().filter(|r| &r[7] == u).copied().collect();
                    vec![u.clone(), best(&g, 1, true), count(&g, 2)]
                })
                .collect()
        }),
        ("t, f", |rs| each(rs, &[3, 4])),
        ("b + 1, s", |rs| rs.iter().map(|r| vec![i64v(r[1].int().unwrap() + 1), r[2].clone()]).collect()),
        ("a > 1", |rs| rs.iter().map(|r| vec![r[0].int().map_or(V::Null, |x| V::B(x > 1))]).collect()),
        ("7", |rs| rs.iter().map(|_| vec![i64v(7)]).collect()),
        ("count(*)", |rs| vec![vec![i64v(rs.len() as i128)]]),
        ("count(a), count(1), count(s)", |rs| vec![vec![count(rs, 0), i64v(rs.len() as i128), count(rs, 2)]]),
        ("min(a), max(a), min(s), max(s)", |rs| vec![vec![best(rs, 0, false), best(rs, 0, true), best(rs, 2, false), best(rs, 2, true)]]),
        ("min(b), max(d), max(t)", |rs| vec![vec![best(rs, 1, false), best(rs, 5, true), best(rs, 3, true)]]),
        ("sum(b), count(*)", |rs| vec![vec![if rs.is_empty() { V::Null } else { i64v(rs.iter().map(|r| r[1].int().unwrap()).sum()) }, i64v(rs.len() as i128)]]),
    ]
}
fn group_of(text: &str) -> &'static str {
    if text.starts_with("u, max") { " GROUP BY u" } else { "" }
}
fn key_of(r: &Vec<V>) -> String {
    format!("{r:?}")
}
fn sql(sc: &SessionContext, q: &str, mut want: Vec<Vec<V>>, ordered: bool) -> Result<(), String> {
    let (schema, b) = run(async {
        let df = er(sc.sql(q).await)?;
        let plan = er(df.create_physical_plan().await)?;
        if std::env::var("MC_PLANS").is_ok() {
            eprintln!("{q}\n{}", displayable(&*plan).indent(false));
        }
        let b = er(collect(plan.clone(), sc.task_ctx()).await)?;
        Ok((plan.schema(), b))
    })?;
    let mut got = rows_of(&b, &schema)?;
    if !ordered {
        got.sort_by_key(key_of);
        want.sort_by_key(key_of);
    }
    diff_rows(&got, &want)
}

fn session(partitions: usize, batch: usize) -> SessionContext {
    SessionContext::new_with_config(SessionConfig::new().with_target_partitions(partitions).with_batch_size(batch).set_bool("datafusion.execution.collect_statistics", true))
}

pub fn c28(ctx: &Ctx) {
    let at = atoms();
    let fw = few();
    let ot = others();
    let sc = session(1, 8192);

    // which filters: single, in pairs, and lists
    let mut lists: Vec<Vec<Q>> = vec![vec![]];
    for q in at.iter().chain(&ot) {
        lists.push(vec![q.clone()]);
    }
    for (i, x) in fw.iter().enumerate() {
        for (j, y) in fw.iter().enumerate() {
            lists.push(vec![and(x.clone(), y.clone())]);
            lists.push(vec![or(x.clone(), y.clone())]);
            if i != j {
                lists.push(vec![x.clone(), y.clone()]);
            }
            let z = &fw[(i * 3 + j * 5 + 1) % fw.len()];
            lists.push(vec![or(and(x.clone(), y.clone()), z.clone())]);
            lists.push(vec![and(or(x.clone(), y.clone()), z.clone())]);
            if ctx.thorough {
                for z in &fw {
                    lists.push(vec![or(x.clone(), or(y.clone(), z.clone()))]);
                    lists.push(vec![and(z.clone(), and(x.clone(), y.clone()))]);
                    lists.push(vec![x.clone(), or(y.clone(), z.clone())]);
                }
            }
        }
        let o = &ot[i % ot.len()];
        lists.push(vec![x.clone(), o.clone()]);
        lists.push(vec![o.clone(), x.clone(), fw[(i + 1) % fw.len()].clone()]);
        lists.push(vec![or(x.clone(), o.clone())]);
        lists.push(vec![and(x.clone(), o.clone())]);
    }
    let projs: Vec<Option<Vec<usize>>> = [None, Some(vec![]), Some(vec![0]), Some(vec![2]), Some(vec![1, 3]), Some(vec![3, 0]), Some(vec![8, 7, 6, 5, 4, 3, 2, 1, 0]), Some(vec![4, 5]), Some(vec![6, 8])].into();

    let mut ts: Vec<Table> = vec![];
    let sizes: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 7, 24] } else { &[0, 1, 3, 24] };
    for n in sizes {
        let rows: Vec<Vec<V>> = (0..*n).map(|k| row(k * 5 + n)).collect();
        ts.extend(tables(&rows, &format!("{n} rows"), *n == 3 || *n == 24 || ctx.thorough, if ctx.thorough { Rich::More } else { Rich::Core }));
    }
    ts.par_iter().enumerate().for_each(|(ti, t)| {
        ctx.state();
        ctx.tag("scan");
        for on in [true, false] {
            let p = mem(&t.arr, on);
            for (li, l) in lists.iter().enumerate() {
                for (pi, pr) in projs.iter().enumerate() {
                    // everything with the first tables, in turn with the others
                    if ti > 0 && (ti + li * 5 + pi * 3) % (if ctx.thorough { 7 } else { 12 }) != 0 {
                        continue;
                    }
                    if !on && (li + pi + ti) % 8 != 0 {
                        continue;
                    }
                    let sh = || l.iter().map(Q::sql).collect::<Vec<_>>().join("; ");
                    ctx.sample(|| format!("{} {} {pr:?}", t.desc, sh()));
                    ctx.check(|| format!("scan{}|{}|{pr:?}|{}", if on { "" } else { "-off" }, t.desc, sh()), || scan(&sc, &p, &t.rows, l, pr.as_ref(), on));
                }
            }
        }
    });
    ctx.bound(format!("{} lists of filters (comparisons, and/or, predicates that are not taken over) and {} projections asked of {} tables: chunkings, empty chunks, encodings of every column, warm statistics; with filters taken over or not", lists.len(), projs.len(), ts.len()));

    // SQL
    let se = sels();
    let mut wheres: Vec<Option<Q>> = vec![None];
    wheres.extend(lists.iter().filter(|l| !l.is_empty()).map(|l| Some(l.iter().cloned().reduce(and).unwrap())));
    let pick: Vec<&Table> = ts.iter().enumerate().filter(|(i, t)| t.desc.contains("chunked") || t.desc.contains("warm") || i % 5 == 0).map(|x| x.1).collect();
    let pick: Vec<&Table> = if ctx.thorough { pick } else { pick.into_iter().step_by(4).collect() };
    pick.par_iter().enumerate().for_each(|(ti, t)| {
        ctx.state();
        ctx.tag("SQL");
        for (parts, batch) in [(1usize, 8192usize), (3, 2)] {
            for on in [true, false] {
                let sc = session(parts, batch);
                if let Err(m) = attempt(|| er(sc.register_mem_vortex_opts("t", t.arr.clone(), VortexMemTableOptions::default().with_pushdown(on)))) {
                    ctx.check(|| format!("register|{}", t.desc), || Err(m));
                    continue;
                }
                for (wi, w) in wheres.iter().enumerate() {
                    for (si, (text, f)) in se.iter().enumerate() {
                        let stride = if ctx.thorough { 61 } else { 41 };
                        if wi > 0 && (wi * 7 + si * 3 + ti * 11 + parts * 2 + on as usize) % stride != 0 {
                            continue;
                        }
                        let q = format!("SELECT {text} FROM t{}{}", w.as_ref().map(|w| format!(" WHERE {}", w.sql())).unwrap_or_default(), group_of(text));
                        ctx.check(|| format!("sql{}{parts}|{}|{q}", if on { "" } else { "-off" }, t.desc), || {
                            let keep: Vec<&Vec<V>> = t.rows.iter().filter(|r| w.as_ref().is_none_or_(|w| w.selects(r))).collect();
                            sql(&sc, &q, f(&keep), parts == 1 && group_of(text).is_empty())
                        });
                    }
                }
            }
        }
    });
    ctx.bound(format!("SQL: {} selections, of columns, expressions and aggregates, with {} filters over {} tables, one or three partitions, taken over or not", se.len(), wheres.len(), pick.len()));
    limits(ctx, &ts);
    files(ctx, &ts, &lists, &projs);
    literals(ctx);
}

trait NoneOr<T> {
    fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool;
}
impl<T> NoneOr<T> for Option<T> {
    fn is_none_or_(self, f: impl FnOnce(T) -> bool) -> bool {
        self.map_or(true, f)
    }
}

/// A limit returns so many of the rows; an order puts them in it.
fn limits(ctx: &Ctx, ts: &[Table]) {
    let fw = few();
    ts.par_iter().step_by(if ctx.thorough { 2 } else { 6 }).for_each(|t| {
        for on in [true, false] {
            let sc = session(1, 8192);
            if er(sc.register_mem_vortex_opts("t", t.arr.clone(), VortexMemTableOptions::default().with_pushdown(on))).is_err() {
                continue;
            }
            ctx.state();
            for (k, w) in [None, Some(&fw[4]), Some(&fw[0])].into_iter().enumerate() {
                let keep: Vec<Vec<V>> = t.rows.iter().filter(|r| w.is_none_or_(|w| w.selects(r))).map(|r| vec![r[0].clone(), r[1].clone()]).collect();
                let wh = w.map(|w| format!(" WHERE {}", w.sql())).unwrap_or_default();
                for lim in [0usize, 1, 2, 5, 100] {
                    for off in [0usize, 1, 3] {
                        let q = format!("SELECT a, b FROM t{wh} LIMIT {lim} OFFSET {off}");
                        let want: Vec<Vec<V>> = keep.iter().skip(off).take(lim).cloned().collect();
                        ctx.check(|| format!("limit{}|{}|{q}", if on { "" } else { "-off" }, t.desc), || sql(&sc, &q, want, true));
                    }
                }
                let mut sorted = keep.clone();
                sorted.sort_by(|x, y| vcmp_nl(&x[0], &y[0]).then(ord(&y[1], &x[1])));
                let q = format!("SELECT a, b FROM t{wh} ORDER BY a ASC NULLS LAST, b DESC");
                ctx.check(|| format!("order{}|{}|{q}|{k}", if on { "" } else { "-off" }, t.desc), || sql(&sc, &q, sorted, true));
            }
        }
    });
    ctx.bound("limits, offsets and orders");
}

/// The same tables written to files, one or two of them.
fn files(ctx: &Ctx, ts: &[Table], lists: &[Vec<Q>], projs: &[Option<Vec<usize>>]) {
    let pick: Vec<(usize, &Table)> = ts.iter().enumerate().filter(|(i, t)| !t.rows.is_empty() && (ctx.thorough || t.desc.contains("chunked") || i % 3 == 0)).collect();
    let pick: Vec<(usize, &Table)> = if ctx.thorough { pick } else { pick.into_iter().step_by(3).collect() };
    let se = sels();
    pick.par_iter().for_each(|(ti, t)| {
        let Ok(bytes) = attempt(|| write(&t.arr)) else {
            ctx.refuse("write");
            return;
        };
        for copies in [1usize, 2] {
            ctx.state();
            ctx.tag("file");
            let sc = session(1, 8192);
            let (p, store, url) = match attempt(|| file_table(&vec![bytes.clone(); copies], t.arr.dtype(), *ti)) {
                Ok(x) => x,
                Err(m) => {
                    ctx.check(|| format!("file-table|{}", t.desc), || Err(m));
                    continue;
                }
            };
            sc.register_object_store(url.as_ref(), store);
            let rows: Vec<Vec<V>> = (0..copies).flat_map(|_| t.rows.clone()).collect();
            for (li, l) in lists.iter().enumerate() {
                for (pi, pr) in projs.iter().enumerate() {
                    if (ti + li * 5 + pi * 3 + copies) % (if ctx.thorough { 5 } else { 24 }) != 0 {
                        continue;
                    }
                    let sh = || l.iter().map(Q::sql).collect::<Vec<_>>().join("; ");
                    ctx.check(|| format!("file{copies}|{}|{pr:?}|{}", t.desc, sh()), || scan(&sc, &*p, &rows, l, pr.as_ref(), true));
                }
            }
            if er(sc.register_table("t", p.clone())).is_err() {
                continue;
            }
            for (li, l) in lists.iter().enumerate() {
                for (si, (text, f)) in se.iter().enumerate() {
                    if (ti + li * 5 + si * 3 + copies) % (if ctx.thorough { 31 } else { 157 }) != 0 {
                        continue;
                    }
                    let w = l.iter().cloned().reduce(and);
                    let q = format!("SELECT {text} FROM t{}{}", w.as_ref().map(|w| format!(" WHERE {}", w.sql())).unwrap_or_default(), group_of(text));
                    ctx.check(|| format!("file-sql{copies}|{}|{q}", t.desc), || {
                        let keep: Vec<&Vec<V>> = rows.iter().filter(|r| w.as_ref().is_none_or_(|w| w.selects(r))).collect();
                        sql(&sc, &q, f(&keep), group_of(text).is_empty())
                    });
                }
            }
        }
    });
    ctx.bound(format!("{} of the tables as one file and as two: scans and SQL", pick.len()));
}

/// Literals of the query engine become values of the same type and content, and back.
fn literals(ctx: &Ctx) {
    let tz: Option<Arc<str>> = Some("UTC".into());
    let mut all: Vec<DSv> = vec![DSv::Null, DSv::Boolean(Some(true)), DSv::Boolean(Some(false))];
    macro_rules! ints {
        ($($k:ident $t:ty),*) => {$(
            for x in [0 as $t, 1, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1] {
                all.push(DSv::$k(Some(x)));
            }
        )*};
    }
    ints!(UInt8 u8, UInt16 u16, UInt32 u32, UInt64 u64, Int8 i8, Int16 i16, Int32 i32, Int64 i64);
    for x in [0.0f64, -0.0, 1.5, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE] {
        all.push(DSv::Float64(Some(x)));
        all.push(DSv::Float32(Some(x as f32)));
        all.push(DSv::Float16(Some(half::f16::from_f64(x))));
    }
    for s in ["", "a", "h\u{e9}llo", "a longer text than fits a view"] {
        all.push(DSv::Utf8(Some(s.into())));
        all.push(DSv::Utf8View(Some(s.into())));
        all.push(DSv::LargeUtf8(Some(s.into())));
        all.push(DSv::Binary(Some(s.as_bytes().to_vec())));
        all.push(DSv::BinaryView(Some(s.as_bytes().to_vec())));
        all.push(DSv::LargeBinary(Some(vec![0xFF, 0x00])));
    }
    for x in [0i32, 1, -1, i32::MAX, i32::MIN] {
        all.push(DSv::Date32(Some(x)));
        all.push(DSv::Time32Second(Some(x)));
        all.push(DSv::Time32Millisecond(Some(x)));
    }
    for x in [0i64, 1, -1, i64::MAX, i64::MIN] {
        all.push(DSv::Date64(Some(x)));
        all.push(DSv::Time64Microsecond(Some(x)));
        all.push(DSv::Time64Nanosecond(Some(x)));
        for z in [None, tz.clone(), Some("Europe/London".into()), Some("+01:00".into())] {
            all.push(DSv::TimestampSecond(Some(x), z.clone()));
            all.push(DSv::TimestampMillisecond(Some(x), z.clone()));
            all.push(DSv::TimestampMicrosecond(Some(x), z.clone()));
            all.push(DSv::TimestampNanosecond(Some(x), z));
        }
    }
    for (k, x) in all.iter().enumerate() {
        ctx.state();
        // (the Debug form of an extreme date panics)
        ctx.check(|| format!("literal|{k}|{:?}", x.data_type()), || {
            let s = Scalar::from(x.clone());
            let back = es(DSv::try_from(s.clone()))?;
            // text and bytes have one form on the way back
            let want = match x {
                DSv::Utf8View(v) | DSv::LargeUtf8(v) => DSv::Utf8(v.clone()),
                DSv::BinaryView(v) | DSv::LargeBinary(v) => DSv::Binary(v.clone()),
                x => x.clone(),
            };
            if back != want {
                return Err(format!("the literal came back as another, of type {:?}", back.data_type()));
            }
            let v = observe_scalar(&s)?;
            let w = read_arrow(&er(x.to_array())?)?.remove(0);
            // (an extension value doesn't tell the width of its storage)
            if v != w && (v.int().is_none() || v.int() != w.int()) {
                return Err(format!("value is {v:?} instead of {w:?}"));
            }
            Ok(())
        });
        // a null of the type stays a null of the type
        let null = DSv::try_from(x.data_type());
        if let Ok(null) = null {
            ctx.check(|| format!("literal-null|{:?}", x.data_type()), || {
                let s = Scalar::from(null.clone());
                if !s.is_null() {
                    return Err(format!("the null became {s:?}"));
                }
                let back = es(DSv::try_from(s.clone()))?;
                if !back.is_null() {
                    return Err(format!("the null came back as {back:?}"));
                }
                let t = Scalar::from(x.clone());
                if s.dtype().as_nullable() != t.dtype().as_nullable() {
                    return Err(format!("the null has type {} instead of {}", s.dtype(), t.dtype().as_nullable()));
                }
                Ok(())
            });
        }
    }
    let _: Option<&dyn Any> = None;
    ctx.bound("literals of every type the integration takes over, and nulls of them, converted to values and back");
}
