//! C09 statistics are never wrong, C10 merged statistics.

use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::unary::{fill_forward, subtract_scalar, try_cast};
use vortex::compute::{and, compare, or, Operator};
use vortex::stats::{ArrayStatistics, Stat, StatsSet};
use vortex::{Array, IntoArray, IntoCanonical};
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_core::{far_types, long_subset, preludes, run_ops_ok, small};
use crate::report::{attempt, Ctx};
pub use crate::stat_model::*;

fn computed(a: &Array, c: &Col, order: usize) -> Result<u64, String> {
    let mut n = 0;
    for i in 0..STATS.len() {
        // order < 10: rotations; otherwise reversed rotations
        let s = if order < 10 { STATS[(i + order) % 10] } else { STATS[(order - i) % 10] };
        if let Some(v) = a.statistics().compute(s) {
            stat_ok(c, s, &v, chunked_below(a)).map_err(|e| format!("computed {}: {e}", a.encoding().id().as_ref()))?;
            n += 1;
        }
    }
    same(a, c)?;
    present(a, "")?;
    Ok(n)
}

/// Compute every statistic that the children have too.
fn warm_all(a: &Array) {
    let _ = attempt(|| {
        for s in STATS {
            let _ = a.statistics().compute(s);
        }
        Ok::<(), String>(())
    });
    for k in a.children() {
        warm_all(&k);
    }
}

/// Results of other operations, whose statistics must describe whatever they contain.
fn results(a: &Array, c: &Col) -> Vec<(&'static str, Array)> {
    let mut v: Vec<(&'static str, Result<Array, String>)> = vec![("canonical", attempt(|| es(a.clone().into_canonical().map(Array::from))))];
    v.push(("fill_forward", attempt(|| es(fill_forward(a)))));
    match &c.dtype {
        DType::Primitive(p, n) => {
            for (name, q) in [("cast-u8", PType::U8), ("cast-i64", PType::I64), ("cast-u64", PType::U64), ("cast-f64", PType::F64), ("cast-i8", PType::I8)] {
                v.push((name, attempt(|| es(try_cast(a, &DType::Primitive(q, *n))))));
            }
            v.push(("cast-nullable", attempt(|| es(try_cast(a, &DType::Primitive(*p, nn(true)))))));
            if let Some(k) = c.vals.iter().find(|v| !v.is_null()) {
                v.push(("subtract", attempt(|| es(subtract_scalar(a, &scalar_of(k, &c.dtype))))));
                v.push(("compare", attempt(|| es(compare(a, ConstantArray::new(scalar_of(k, &c.dtype), c.len()).into_array(), Operator::Lt)))));
            }
        }
        DType::Bool(_) => {
            v.push(("and", attempt(|| es(and(a, a)))));
            v.push(("or", attempt(|| es(or(a, a)))));
        }
        DType::Utf8(_) | DType::Binary(_) => {
            if let Some(k) = c.vals.iter().find(|v| !v.is_null()) {
                v.push(("compare", attempt(|| es(compare(a, ConstantArray::new(scalar_of(k, &c.dtype), c.len()).into_array(), Operator::Gte)))));
            }
        }
        _ => {}
    }
    v.into_iter().filter_map(|(n, r)| r.ok().map(|a| (n, a))).collect()
}

fn history(ctx: &Ctx, s: &Subject, pre: &[Op], order: usize, warmth: &str) {
    let Some((a, c)) = run_ops_ok(s, pre) else { return };
    ctx.check(|| s.key("present", &format!("{warmth}[{}]", path(pre))), || present(&a, "").map(|_| ()));
    // results of other operations: for the array itself and its slices
    if warmth == "warm" && pre.len() <= 1 && (pre.is_empty() || ctx.thorough || matches!(pre[0], Op::Slice(a, b) if a > 0 || b + 1 == s.col.len())) {
        for (name, r) in results(&a, &c) {
            ctx.check(
                || s.key(name, &format!("{warmth}[{}]", path(pre))),
                || {
                    present(&r, "")?;
                    let rc = observe(&r)?;
                    computed(&r, &rc, order).map(|_| ())
                },
            );
        }
    }
    ctx.check(|| s.key("computed", &format!("{warmth}[{}]#{order}", path(pre))), || computed(&a, &c, order).map(|_| ()));
}

pub fn c09(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("columns of length 0..={hi}, every encoding and prelude, with cold statistics and after computing all statistics of the array and its parts; every statistic in rotating order; every part of every array; results of cast/subtract/fill-forward/compare/and/or/canonicalize"));
    let f = |s: &Subject| {
        let pres = preludes(s.col.len());
        let h = s.col.vals.len() + s.enc.len();
        for (i, pre) in pres.iter().enumerate() {
            if !pre.is_empty() && (ctx.thorough || (h + i) % 2 == 0) {
                history(ctx, s, pre, (h + i) % 20, "cold");
            }
        }
        history(ctx, s, &[], (h + pres.len()) % 20, "cold");
        warm_all(&s.arr);
        for (i, pre) in pres.iter().enumerate() {
            history(ctx, s, pre, (h + 3 * i) % 20, "warm");
        }
    };
    explore(ctx, small(true, 0, hi - 1), Rich::Full, f);
    explore(ctx, small(true, hi, hi), if ctx.thorough { Rich::Full } else { Rich::More }, f);
    // longer columns of two values: histograms, runs, sortedness
    let mut cols = vec![];
    for fam in all_fams(ctx.thorough) {
        let mut fam = fam.clone();
        fam.alpha.truncate(if ctx.thorough { 3 } else { 2 });
        if fam.dtype.is_nullable() && !fam.alpha.contains(&V::Null) {
            fam.alpha.pop();
            fam.alpha.push(V::Null);
        }
        cols.extend(small_cols(&fam, hi + 1, if ctx.thorough { 6 } else { 4 }));
    }
    ctx.bound("columns of up to 4 (6 thorough) elements over two- or three-element alphabets");
    explore(ctx, cols, Rich::More, |s| {
        history(ctx, s, &[], s.enc.len() % 20, "cold");
        warm_all(&s.arr);
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(0, n - 1)], vec![Op::Take((0..n).rev().collect(), Ix::P(PType::U64))]] {
            history(ctx, s, &pre, n, "warm");
        }
    });
    let cols = long_subset(ctx, &[PType::U32, PType::I64, PType::F64], if ctx.thorough { &[1024, 1025, 2049] } else { &[1025] });
    ctx.bound("columns across block boundaries, sliced at block boundaries");
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        history(ctx, s, &[], s.enc.len() % 20, "cold");
        warm_all(&s.arr);
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(1000, n - 1)], vec![Op::Filter((0..n).map(|i| i % 3 != 1).collect(), Mk::Plain)]] {
            if ctx.thorough || pre.is_empty() || s.enc.len() % 2 == 0 {
                history(ctx, s, &pre, 3, "warm");
            }
        }
    });
    ctx.bound("columns of 4100 and 66000 elements, whole and sliced");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U32]), ctx.thorough), if ctx.thorough { Rich::Full } else { Rich::More }, |s| {
        let n = s.col.len();
        history(ctx, s, &[], s.enc.len() % 20, "cold");
        warm_all(&s.arr);
        history(ctx, s, &[Op::Slice(2500, n)], 3, "warm");
        if ctx.thorough {
            history(ctx, s, &[Op::Slice(1025, n - 1)], 3, "warm");
        }
    });
}

// ---------------------------------------------------------------------------------------------

/// The statistics that hold for a column, as an array of that type reports them.
fn true_stats(c: &Col) -> Vec<(Stat, Scalar)> {
    let a = plain(c);
    for s in STATS {
        let _ = a.statistics().compute(s);
    }
    let set = a.statistics().to_set();
    set.into_iter().filter(|(s, v)| stat_ok(c, *s, v, false).is_ok()).collect()
}

fn subset(st: &[(Stat, Scalar)], pick: &[Stat]) -> StatsSet {
    let mut s = StatsSet::new();
    for (k, v) in st {
        if pick.contains(k) {
            s.set(*k, v.clone());
        }
    }
    s
}

pub fn c10(ctx: &Ctx) {
    let fams: Vec<Fam> = all_fams(ctx.thorough).into_iter().filter(|f| comparable(&f.dtype) && !matches!(f.dtype, DType::Extension(..))).collect();
    let hi = if ctx.thorough { 3 } else { 2 };
    ctx.bound(format!("all pairs of columns of length 0..={hi} of equal type, every pair of subsets of the order statistics (min, max, constant, sorted, strictly sorted) with the counts present or absent; all triples with full and with each single statistic missing; nullable and non-nullable parts"));
    let five = [Stat::Min, Stat::Max, Stat::IsConstant, Stat::IsSorted, Stat::IsStrictSorted];
    let counts = [Stat::BitWidthFreq, Stat::TrailingZeroFreq, Stat::RunCount, Stat::TrueCount, Stat::NullCount];
    let subs: Vec<Vec<Stat>> = (0..64u32)
        .map(|m| {
            let mut v: Vec<Stat> = five.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, s)| *s).collect();
            if m & 32 != 0 {
                v.extend(counts);
            }
            v
        })
        .collect();
    let chk = |name: &str, parts: &[&Col], stats: &[&Vec<(Stat, Scalar)>], picks: &[&[Stat]]| {
        let cols: Vec<Col> = parts.iter().map(|c| (*c).clone()).collect();
        let all = Col::new(cols[0].dtype.clone(), cols.iter().flat_map(|c| c.vals.clone()).collect());
        ctx.check(
            || {
                format!(
                    "merge|{name}|{}|{}",
                    cols.iter().map(|c| c.desc()).collect::<Vec<_>>().join(" ++ "),
                    picks.iter().map(|p| p.iter().map(|s| s.to_string()).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join(" / ")
                )
            },
            || {
                let mut acc = subset(stats[0], picks[0]);
                for i in 1..stats.len() {
                    acc.merge(&subset(stats[i], picks[i]));
                }
                for s in STATS {
                    if let Some(v) = acc.get(s) {
                        stat_ok(&all, s, v, true)?;
                    }
                }
                Ok(())
            },
        );
    };
    fams.par_iter().for_each(|f| {
        let cols = small_cols(f, 0, hi);
        let st: Vec<Vec<(Stat, Scalar)>> = cols.iter().map(true_stats).collect();
        for _ in &cols {
            ctx.state();
        }
        ctx.tag(&f.name);
        let every: Vec<usize> = (0..cols.len()).collect();
        every.par_iter().for_each(|&i| {
            for j in 0..cols.len() {
                for p in &subs {
                    for q in &subs {
                        // identical to a smaller subset when the column knows less
                        chk(&f.name, &[&cols[i], &cols[j]], &[&st[i], &st[j]], &[p, q]);
                    }
                }
            }
            ctx.sample(|| format!("{} and every column of its family", cols[i].desc()));
        });
        // triples over shorter columns
        let short: Vec<usize> = (0..cols.len()).filter(|i| cols[*i].len() <= if ctx.thorough { 2 } else { 1 }).collect();
        let mut picks: Vec<Vec<Stat>> = vec![STATS.to_vec()];
        for s in STATS {
            picks.push(STATS.iter().copied().filter(|x| *x != s).collect());
        }
        short.par_iter().for_each(|&i| {
            for &j in &short {
                for &k in &short {
                    for p in &picks {
                        for pos in 0..3 {
                            let mut q: [&[Stat]; 3] = [&STATS, &STATS, &STATS];
                            q[pos] = p;
                            chk(&f.name, &[&cols[i], &cols[j], &cols[k]], &[&st[i], &st[j], &st[k]], &q);
                        }
                    }
                }
            }
        });
    });
    // the way chunked arrays use it
    ctx.bound("chunked arrays of two and three chunks whose chunks know each subset of the order statistics");
    let fams: Vec<Fam> = fams.into_iter().filter(|f| !matches!(f.dtype, DType::Binary(_))).collect();
    fams.par_iter().for_each(|f| {
        let mut g = f.clone();
        g.alpha.truncate(3);
        let cols = small_cols(&g, 1, if ctx.thorough { 2 } else { 1 });
        for a in &cols {
            for b in small_cols(f, 0, 2) {
                for m in 0..3 {
                    for warm in STATS {
                        ctx.state();
                        let parts = match m {
                            0 => vec![a.clone(), b.clone()],
                            1 => vec![b.clone(), a.clone()],
                            _ => vec![a.clone(), b.clone(), a.clone()],
                        };
                        let all = Col::new(a.dtype.clone(), parts.iter().flat_map(|c| c.vals.clone()).collect());
                        ctx.check(
                            || format!("chunked|{}|{}|{warm}", f.name, parts.iter().map(|c| c.desc()).collect::<Vec<_>>().join(" ++ ")),
                            || {
                                let chunks: Vec<Array> = parts.iter().map(plain).collect();
                                let ch = es(ChunkedArray::try_new(chunks, all.dtype.clone()))?.into_array();
                                if ch.statistics().compute(warm).is_some() {
                                    computed(&ch, &all, 0)?;
                                }
                                present(&ch, "").map(|_| ())
                            },
                        );
                    }
                }
            }
        }
    });
}
