//! Threads sharing an array: each call ends and gives what it gives alone, whatever the interleaving.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::unary::scalar_at;
use vortex::compute::{compare, search_sorted, Operator, SearchSortedSide};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType, ArrayData, IntoArray};
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::report::{attempt, Ctx};
use crate::sched::{alone, explore};
use crate::stat_model::*;

/// What a thread does with the shared array.
#[derive(Clone, Debug, PartialEq)]
enum P {
    Compute(Stat),
    Get(Stat),
    Set(Stat, Scalar),
    All,
    At(usize),
    Read,
    Do(Op),
    /// compare with a constant
    Cmp(Operator, V),
    Search(V),
    Copy,
}
/// What it got.
#[derive(Clone, Debug)]
enum R {
    Stat(Stat, Option<Scalar>),
    Stats(Vec<(Stat, Scalar)>),
    Val(V),
    Col(Col),
    Refused,
}

fn run(a: &Array, p: &P) -> Result<R, String> {
    Ok(match p {
        P::Compute(s) => R::Stat(*s, a.statistics().compute(*s)),
        P::Get(s) => R::Stat(*s, a.statistics().get(*s)),
        P::Set(s, v) => {
            a.statistics().set(*s, v.clone());
            R::Stat(*s, a.statistics().get(*s))
        }
        P::All => R::Stats(a.statistics().to_set().into_iter().collect()),
        P::At(i) => R::Val(observe_scalar(&es(scalar_at(a, *i))?)?),
        P::Read => R::Col(observe(a)?),
        P::Do(op) => match apply_impl(a, op) {
            None => R::Refused,
            Some(r) => {
                let r = r?;
                // what the result carries along has to be right too
                present(&r, "")?;
                R::Col(observe(&r)?)
            }
        },
        P::Cmp(o, v) => {
            let c = ConstantArray::new(scalar_of(v, a.dtype()), a.len()).into_array();
            R::Col(observe(&es(compare(a, &c, *o))?)?)
        }
        P::Search(v) => {
            let r = es(search_sorted(a, scalar_of(v, a.dtype()), SearchSortedSide::Left))?;
            R::Val(V::of_int(PType::U64, r.to_index() as i128))
        }
        P::Copy => {
            let d = ArrayData::from(a.clone());
            R::Col(observe(&Array::from(d))?)
        }
    })
}

/// The result is right for these elements, and present if it is when running alone.
fn right(c: &Col, a: &Array, r: &R, alone: &Result<R, String>) -> Result<(), String> {
    let runs = chunked_below(a);
    match (r, alone) {
        (R::Stat(s, Some(v)), _) => stat_ok(c, *s, v, runs),
        (R::Stat(s, None), Ok(R::Stat(_, Some(v)))) => Err(format!("{s} is none instead of {:?}", v.value())),
        (R::Stat(..), _) => Ok(()),
        (R::Stats(v), Ok(R::Stats(w))) => {
            if let Some((s, _)) = w.iter().find(|(s, _)| !v.iter().any(|(t, _)| t == s)) {
                return Err(format!("{s} is missing from the statistics"));
            }
            v.iter().try_for_each(|(s, v)| stat_ok(c, *s, v, runs))
        }
        (R::Val(v), Ok(R::Val(w))) => if v == w { Ok(()) } else { Err(format!("value is {v:?} instead of {w:?}")) },
        (R::Col(v), Ok(R::Col(w))) => match diff(v, w) {
            Some(d) => Err(d),
            None => Ok(()),
        },
        (R::Refused, Ok(R::Refused)) => Ok(()),
        (r, w) => Err(format!("result is {r:?} instead of {w:?}")),
    }
}

/// The same array with statistics of its own.
fn fresh(a: &Array) -> Array {
    let d = ArrayData::from(a.clone());
    let kids: Vec<Array> = d.children().iter().map(fresh).collect();
    let set = a.statistics().to_set();
    Array::from(ArrayData::try_new(d.encoding(), d.dtype().clone(), d.len(), d.metadata().clone(), d.buffer().cloned(), kids.into(), set).expect("a copy of an array"))
}

fn progs(c: &Col, sorted: bool) -> Vec<P> {
    let n = c.len();
    let mut v: Vec<P> = STATS.iter().filter(|s| !matches!(s, Stat::TrailingZeroFreq)).map(|s| P::Compute(*s)).collect();
    v.push(P::Get(Stat::Min));
    v.push(P::All);
    v.push(P::Set(Stat::NullCount, Scalar::from(c.vals.iter().filter(|v| v.is_null()).count() as u64)));
    if n > 0 {
        v.push(P::At(n - 1));
        v.push(P::Do(Op::Take(vec![n - 1, 0], Ix::P(PType::U64))));
        v.push(P::Do(Op::Filter((0..n).map(|k| k % 2 == 0).collect(), Mk::Plain)));
        v.push(P::Do(Op::Slice(1, n)));
    }
    v.push(P::Read);
    v.push(P::Copy);
    if matches!(c.dtype, DType::Bool(_) | DType::Primitive(..) | DType::Utf8(_)) {
        if let Some(x) = c.vals.iter().find(|v| !v.is_null()) {
            v.push(P::Cmp(Operator::Gte, x.clone()));
            if sorted && !matches!(c.dtype, DType::Bool(_)) {
                v.push(P::Search(x.clone()));
            }
        }
    }
    v
}

fn cols(thorough: bool) -> Vec<Col> {
    let i = |p: PType, n: bool, v: &[Option<i128>]| Col::new(prim(p, n), v.iter().map(|x| x.map_or(V::Null, |x| V::of_int(p, x))).collect());
    let mut v = vec![
        i(PType::I32, true, &[Some(3), None, Some(3), Some(7)]),
        i(PType::U16, false, &[Some(1), Some(1), Some(2), Some(9)]),
        Col::new(DType::Bool(nn(true)), vec![V::B(true), V::Null, V::B(false)]),
        Col::new(DType::Utf8(nn(true)), vec![V::s("a"), V::s("a"), V::Null, V::s("b")]),
        Col::new(prim(PType::F64, false), vec![V::f64(0.5), V::f64(1.5), V::f64(0.25)]),
    ];
    let t = temporal("stamp", PType::I64, &[0, 1, 86_400_000_000], true, vortex_datetime_dtype::TimeUnit::Us, None, 0);
    v.push(Col::new(t.dtype, vec![V::of_int(PType::I64, 5), V::Null, V::of_int(PType::I64, 86_400_000_001)]));
    if thorough {
        v.push(i(PType::I64, false, &[Some(i64::MIN as i128), Some(0), Some(i64::MAX as i128)]));
        v.push(i(PType::U8, true, &[None, None]));
        v.push(i(PType::I32, false, &[Some(4), Some(4), Some(4)]));
        v.push(Col::new(DType::Bool(nn(false)), vec![V::B(true), V::B(true), V::B(false)]));
        v.push(struct_cols());
        v.push(Col::new(DType::Binary(nn(false)), vec![V::s("x"), V::s("y")]));
        v.push(i(PType::I32, true, &[]));
        v.push(Col::new(DType::Null, vec![V::Null, V::Null]));
    }
    v
}
fn struct_cols() -> Col {
    let f = struct_fam(false);
    small_cols(&f, 2, 2).into_iter().nth(3).expect("a column of structs")
}

struct Case {
    col: Col,
    enc: String,
    arr: Array,
    sorted: bool,
}

fn cases(ctx: &Ctx) -> Vec<Case> {
    let mut v = vec![];
    for c in cols(ctx.thorough) {
        let sorted = c.vals.windows(2).all(|w| vcmp_nl(&w[0], &w[1]).is_le());
        let made = alone(|| encodings(&c, if ctx.thorough { Rich::Full } else { Rich::More }));
        for (enc, r) in made {
            let Ok(arr) = r else { continue };
            if *arr.dtype() != c.dtype || alone(|| attempt(|| same(&arr, &c))).is_err() {
                continue;
            }
            v.push(Case { col: c.clone(), enc, arr, sorted });
        }
    }
    v
}

/// All schedules of the threads' programs on one array.
fn together(ctx: &Ctx, k: &Case, ps: &[Vec<P>], bound: usize, most: usize, runs: &AtomicU64, cut: &AtomicU64) {
    let key = || format!("threads{}|{}|{}|{}", ps.len(), k.enc, k.col.desc(), ps.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(" || "));
    if let Some(o) = &ctx.only {
        if !key().contains(o.as_str()) {
            return;
        }
    }
    let alone_: Vec<Vec<Result<R, String>>> = ps
        .iter()
        .map(|p| {
            let a = fresh(&k.arr);
            alone(|| p.iter().map(|p| attempt(|| run(&a, p))).collect())
        })
        .collect();
    // what a single thread cannot do is no matter of interleaving, unless it waits for itself
    if let Some(Err(m)) = alone_.iter().flatten().find(|r| matches!(r, Err(m) if m.contains("deadlock"))) {
        ctx.check(key, || Err(m.clone()));
        return;
    }
    if alone_.iter().flatten().any(|r| r.is_err()) {
        ctx.refuse("program");
        return;
    }
    let shared: std::cell::RefCell<Option<Array>> = std::cell::RefCell::new(None);
    let mut fail: Option<String> = None;
    let (n, all) = explore(
        bound,
        most,
        || {
            let a = fresh(&k.arr);
            *shared.borrow_mut() = Some(a.clone());
            ps.iter()
                .map(|p| {
                    let (a, p) = (a.clone(), p.clone());
                    Box::new(move || p.iter().map(|p| run(&a, p)).collect::<Result<Vec<R>, String>>()) as Box<dyn FnOnce() -> Result<Vec<R>, String> + Send>
                })
                .collect()
        },
        |r| {
            let judge = || -> Result<(), String> {
                if let Some(d) = &r.deadlock {
                    return Err(format!("deadlock: {d}"));
                }
                for (t, (got, want)) in r.results.iter().zip(&alone_).enumerate() {
                    let got = got.as_ref().ok_or("no result")?.as_ref().map_err(|e| format!("thread {t}: {e}"))?;
                    for (g, w) in got.iter().zip(want) {
                        right(&k.col, &k.arr, g, w).map_err(|e| format!("thread {t}: {e}"))?;
                    }
                }
                // what is left behind is right, and nothing is lost
                let a = shared.borrow().clone().expect("the array");
                present(&a, "")?;
                for (p, want) in ps.iter().flatten().zip(alone_.iter().flatten()) {
                    if let (P::Compute(s) | P::Set(s, _), R::Stat(_, Some(v))) = (p, want.as_ref().unwrap()) {
                        if a.statistics().get(*s).is_none() {
                            return Err(format!("{s}, computed as {:?}, is lost", v.value()));
                        }
                    }
                }
                same(&a, &k.col)
            };
            match alone(|| attempt(judge)) {
                Ok(()) => true,
                Err(m) => {
                    fail = Some(format!("{m} (schedule {:?})", r.choices));
                    false
                }
            }
        },
    );
    runs.fetch_add(n as u64, Relaxed);
    ctx.steps(n as u64 - 1);
    ctx.held.fetch_add(n as u64 - 1, Relaxed);
    if !all {
        cut.fetch_add(1, Relaxed);
    }
    ctx.check(key, || match fail {
        None => Ok(()),
        Some(m) => Err(m),
    });
}

pub fn c27(ctx: &Ctx) {
    let cs = cases(ctx);
    let (runs, cut) = (AtomicU64::new(0), AtomicU64::new(0));
    let deep = ctx.thorough;
    let bound = if deep { 3 } else { 2 };
    let most = if deep { 1_000_000 } else { 100_000 };
    cs.par_iter().with_max_len(1).for_each(|k| {
        ctx.state();
        ctx.tag(&base_enc(&k.enc));
        let ps = progs(&k.col, k.sorted);
        for (i, p) in ps.iter().enumerate() {
            for q in &ps[i..] {
                ctx.sample(|| format!("{} {} {p:?} || {q:?}", k.enc, k.col.desc()));
                together(ctx, k, &[vec![p.clone()], vec![q.clone()]], bound, most, &runs, &cut);
            }
        }
    });
    ctx.bound(format!(
        "pairs of calls on {} arrays: all schedules with at most {bound} preemptions, {} in all ({} pairs were cut off at {most} schedules)",
        cs.len(),
        runs.swap(0, Relaxed),
        cut.swap(0, Relaxed)
    ));
    // two calls each, and three threads
    cs.par_iter().with_max_len(1).enumerate().for_each(|(ci, k)| {
        ctx.state();
        let ps = progs(&k.col, k.sorted);
        let n = ps.len();
        for i in 0..n {
            for j in 0..n {
                let stride = if deep { 3 } else { 17 };
                if (i * 5 + j * 7 + ci) % stride != 0 {
                    continue;
                }
                let (p, q) = (&ps[i], &ps[j]);
                let (u, w) = (&ps[(i + 2 * j + 1) % n], &ps[(3 * i + j + 2) % n]);
                together(ctx, k, &[vec![p.clone(), u.clone()], vec![q.clone(), w.clone()]], 2, most, &runs, &cut);
                together(ctx, k, &[vec![p.clone()], vec![q.clone()], vec![u.clone()]], if deep { 2 } else { 1 }, most, &runs, &cut);
            }
        }
    });
    ctx.bound(format!(
        "two calls on each of two threads, and three threads: all schedules with at most {} preemptions, {} in all ({} programs were cut off at {most} schedules)",
        if deep { "2" } else { "2 (two threads) or 1 (three)" },
        runs.load(Relaxed),
        cut.load(Relaxed)
    ));
    if cut.load(Relaxed) > 0 {
        ctx.truncated.store(true, Relaxed);
    }
}
