//! C01 lossless encodings, C02 random access, C03 slice, C04 take, C05 filter, C11 nullness.
use vortex::array::*;
use vortex::compute::unary::scalar_at;
use vortex::compute::{slice, FilterFn};
use vortex::validity::{LogicalValidity, Validity};
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::{DType, PType};

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::report::{attempt, Ctx};

pub fn small(full: bool, lo: usize, hi: usize) -> Vec<Col> {
    all_fams(full).iter().flat_map(|f| small_cols(f, lo, hi)).collect()
}

pub fn c01(ctx: &Ctx) {
    let hi = if ctx.thorough { 5 } else { 3 };
    ctx.bound(format!("every column of length 0..={hi} over every element alphabet; every encoding and nesting, and every encoder fed with a slice of a longer array"));
    let mut cols = small(true, 0, hi);
    let lens: &[usize] = if ctx.thorough { &[1023, 1024, 1025, 2047, 2048, 2049, 3000] } else { &[1024, 1025, 2049] };
    ctx.bound(format!("columns of length {lens:?} with exceptions/nulls at every set of up to two block-boundary positions"));
    for p in INTS.into_iter().chain([PType::F32, PType::F64]) {
        if ctx.thorough || matches!(p, PType::U8 | PType::U32 | PType::U64 | PType::I16 | PType::I64 | PType::F64) {
            cols.extend(long_cols(p, false, lens, ctx.thorough));
            cols.extend(long_cols(p, true, lens, ctx.thorough));
        }
    }
    for n in [false, true] {
        // strings: more distinct symbols, long values, escapes
        for len in [9usize, 40, 300] {
            let f = |i: usize| V::S(format!("https://www.example.com/{}/{}", i % 7, "x".repeat(i % 23)).into_bytes());
            let u = if n { vortex_dtype::DType::Utf8(nn(true)) } else { vortex_dtype::DType::Utf8(nn(false)) };
            cols.push(pattern(u.clone(), len, f, &[]));
            if n {
                cols.push(pattern(u, len, f, &[(0, V::Null), (3, V::Null), (len - 1, V::Null)]));
            }
            let b = vortex_dtype::DType::Binary(nn(n));
            cols.push(pattern(b, len, |i| V::S((0..(i * 5) % 40).map(|k| (k * 37 + i) as u8).collect()), &[]));
        }
        for len in [63usize, 64, 65, 130] {
            for k in [1usize, 2, 3, 64] {
                let d = vortex_dtype::DType::Bool(nn(n));
                cols.push(pattern(d.clone(), len, |i| V::B((i / k) % 2 == 1), &[]));
                if n {
                    cols.push(pattern(d, len, |i| V::B((i / k) % 2 == 0), &[(0, V::Null), (len / 2, V::Null), (len - 1, V::Null)]));
                }
            }
        }
    }
    cols.extend(far_cols(&INTS.into_iter().chain([PType::F32, PType::F64]).collect::<Vec<_>>(), true));
    ctx.bound("columns of 4100 and 66000 elements: exceptions and nulls in every block, wide gaps, runs, more elements than 16 bits count");
    // decimals and float edge values for ALP / ALP-RD
    for n in [false, true] {
        let vals: Vec<f64> = vec![
            0.1, 0.2, 0.30000000000000004, 1.1, 123456.789, 1e15, 1e16, 1e17, 9007199254740993.0, 1e-10, 1e-300, f64::MIN_POSITIVE,
            f64::from_bits(1), f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::from_bits(0x7ff8_0000_0000_0001),
            f64::from_bits(0xfff0_0000_0000_0001), -0.0, 0.0, 9.223372036854775e18, -9.3e18, 4.35, 1.005,
        ];
        for a in &vals {
            for b in &vals {
                let mut v = vec![V::f64(1.5), V::f64(*a), V::f64(2.25), V::f64(*b)];
                cols.push(Col::new(prim(PType::F64, n), v.clone()));
                if n {
                    v[2] = V::Null;
                    cols.push(Col::new(prim(PType::F64, n), v));
                }
                let w = vec![V::f32(1.5), V::f32(*a as f32), V::f32(*b as f32)];
                cols.push(Col::new(prim(PType::F32, n), w));
            }
        }
    }
    // RoaringInt / RoaringBool on inputs they cannot represent must refuse
    use rayon::prelude::*;
    cols.into_par_iter().for_each(|c| {
        let mut encs = encodings(&c, Rich::Full);
        encs.extend(encodings_of_slices(&c));
        if let vortex_dtype::DType::Primitive(p, _) = &c.dtype {
            if p.is_unsigned_int() {
                encs.push(("roaringint(any)".into(), attempt(|| es(vortex_roaring::RoaringIntArray::encode(plain(&c))))));
            }
        }
        if matches!(c.dtype, vortex_dtype::DType::Bool(_)) {
            encs.push(("roaringbool(any)".into(), attempt(|| es(vortex_roaring::RoaringBoolArray::encode(plain(&c))))));
        }
        for (enc, r) in encs {
            let key = || format!("encode|{enc}|{}|", c.desc());
            match r {
                Err(m) if m.starts_with("panic") => ctx.check(key, || Err(m.clone())),
                Err(m) => {
                    ctx.refuse(&base_enc(&enc));
                    let _ = m;
                }
                Ok(a) => {
                    ctx.state();
                    ctx.tag(&base_enc(&enc));
                    ctx.sample(|| format!("{} {}", enc, c.desc()));
                    ctx.check(key, || same(&a, &c));
                }
            }
        }
    });
}

/// a few representative preludes: what the array went through before the operation under test
pub fn preludes(n: usize) -> Vec<Vec<Op>> {
    let mut v: Vec<Vec<Op>> = vec![vec![]];
    v.extend(slices_for(n).into_iter().filter(|s| *s != Op::Slice(0, n)).map(|s| vec![s]));
    if n > 0 && n <= 40 {
        let rev: Vec<usize> = (0..n).rev().collect();
        v.push(vec![Op::Take(rev.clone(), Ix::P(PType::U64))]);
        let m: Vec<bool> = (0..n).map(|i| i % 2 == 0).collect();
        v.push(vec![Op::Filter(m, Mk::Plain)]);
        if n >= 2 {
            v.push(vec![Op::Slice(1, n), Op::Take((0..n - 1).rev().collect(), Ix::P(PType::U64))]);
            v.push(vec![Op::Slice(1, n), Op::Slice(0, n - 2)]);
            v.push(vec![Op::Slice(1, n), Op::Filter((0..n - 1).map(|i| i != 1).collect(), Mk::Plain)]);
        }
    }
    v
}

/// Apply a sequence; None when some step fails (that step's own property reports it).
pub fn run_ops(s: &Subject, ops: &[Op]) -> Option<(Array, Col)> {
    let mut a = s.arr.clone();
    let mut c = (*s.col).clone();
    for o in ops {
        a = apply_impl(&a, o)?.ok()?;
        c = apply_model(&c, o);
    }
    Some((a, c))
}
/// ... and only if the result holds what it should.
pub fn run_ops_ok(s: &Subject, ops: &[Op]) -> Option<(Array, Col)> {
    let (a, c) = run_ops(s, ops)?;
    if ops.is_empty() || attempt(|| same(&a, &c)).is_ok() { Some((a, c)) } else { None }
}

pub fn long_subset(ctx: &Ctx, quick_ps: &[PType], lens: &[usize]) -> Vec<Col> {
    let mut cols = vec![];
    for p in INTS.into_iter().chain([PType::F32, PType::F64]) {
        if ctx.thorough || quick_ps.contains(&p) {
            for n in [false, true] {
                for (k, c) in long_cols(p, n, lens, false).into_iter().enumerate() {
                    if ctx.thorough || k % 3 == 0 {
                        cols.push(c);
                    }
                }
            }
        }
    }
    cols
}

pub fn c02(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("columns of length 0..={hi}, every encoding, every prelude of slices (and take/filter), every position plus two past the end"));
    let probe = |s: &Subject, pre: &[Op], a: &Array, c: &Col, pos: &[usize]| {
        for &i in pos {
            ctx.check(|| s.key("scalar_at", &format!("[{}]@{i}", path(pre))), || scalar_is(a, c, i));
        }
        for i in [c.len(), c.len() + 1, usize::MAX] {
            ctx.check(
                || s.key("scalar_at", &format!("[{}]@oob{}", path(pre), i.wrapping_sub(c.len()))),
                || match es(scalar_at(a, i)) {
                    Ok(v) => Err(format!("position past the end accepted: {v}")),
                    Err(_) => Ok(()),
                },
            );
        }
    };
    explore(ctx, small(ctx.thorough, 0, hi), Rich::Full, |s| {
        for pre in preludes(s.col.len()) {
            if let Some((a, c)) = run_ops(s, &pre) {
                let pos: Vec<usize> = (0..c.len()).collect();
                probe(s, &pre, &a, &c, &pos);
            }
        }
    });
    let cols = long_subset(ctx, &[PType::U16, PType::I32, PType::F64], &[1025, 2049]);
    ctx.bound("columns of 1025 and 2049 elements, slices at block boundaries, positions at block boundaries");
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        let mut pres: Vec<Vec<Op>> = vec![vec![]];
        for (k, o) in hot_slices(n).into_iter().enumerate() {
            if ctx.thorough || k % 5 == 1 {
                pres.push(vec![o]);
            }
        }
        pres.push(vec![Op::Slice(1, n), Op::Slice(1023, n - 1)]);
        pres.push(vec![Op::Slice(500, n), Op::Slice(525, n - 500)]);
        for pre in pres {
            if let Some((a, c)) = run_ops(s, &pre) {
                let pos: Vec<usize> = hot(c.len()).into_iter().filter(|i| *i < c.len()).collect();
                probe(s, &pre, &a, &c, &pos);
            }
        }
    });
    ctx.bound("columns of 4100 and 66000 elements, positions and slices in all blocks");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U16, PType::I64]), ctx.thorough), Rich::Full, |s| {
        let n = s.col.len();
        for pre in std::iter::once(vec![]).chain(far_slices(n).into_iter().map(|o| vec![o])) {
            if let Some((a, c)) = run_ops(s, &pre) {
                probe(s, &pre, &a, &c, &far_at(c.len()));
            }
        }
    });
}

pub fn far_types(ctx: &Ctx, quick: &[PType]) -> Vec<PType> {
    if ctx.thorough { INTS.into_iter().chain([PType::F32, PType::F64]).collect() } else { quick.to_vec() }
}

pub fn scalar_is(a: &Array, c: &Col, i: usize) -> Result<(), String> {
    let sc = es(scalar_at(a, i))?;
    if sc.dtype() != a.dtype() {
        return Err(format!("scalar of type {} from array of type {}", sc.dtype(), a.dtype()));
    }
    let v = observe_scalar(&sc)?;
    let w = &c.vals[i];
    let ok = if matches!(c.dtype, vortex_dtype::DType::Extension(..)) { same_ext(&v, w) } else { &v == w };
    if ok { Ok(()) } else { Err(format!("element is {v:?} instead of {w:?}")) }
}

fn chains(ctx: &Ctx, s: &Subject, a: &Array, c: &Col, hist: &mut Vec<Op>, depth: usize, slices: &dyn Fn(usize) -> Vec<Op>) {
    for o in slices(c.len()) {
        let Op::Slice(x, y) = o else { continue };
        hist.push(o.clone());
        let mut next = None;
        let want = c.slice(x, y);
        ctx.check(
            || s.key("slice", &path(hist)),
            || {
                let r = es(slice(a, x, y))?;
                same(&r, &want)?;
                next = Some(r);
                Ok(())
            },
        );
        if depth > 1 && (x, y) != (0, c.len()) {
            if let Some(r) = next {
                chains(ctx, s, &r, &want, hist, depth - 1, slices);
            }
        }
        hist.pop();
    }
}

pub fn c03(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    let depth = 3;
    ctx.bound(format!("columns of length 0..={hi}, every encoding, every chain of up to {depth} slices, ranges past the end and reversed"));
    explore(ctx, small(ctx.thorough, 0, hi), Rich::Full, |s| {
        chains(ctx, s, &s.arr, &s.col, &mut vec![], depth, &all_slices);
        let n = s.col.len();
        for (x, y) in [(0, n + 1), (n + 1, n + 1), (1, 0), (n, n.saturating_sub(1)), (n + 1, n), (0, usize::MAX), (usize::MAX, usize::MAX)] {
            if x <= y && y <= n {
                continue;
            }
            ctx.check(
                || s.key("slice", &format!("oob{x}..{y}")),
                || match es(slice(&s.arr, x, y)) {
                    Ok(r) => Err(format!("range outside the array accepted, giving length {}", r.len())),
                    Err(_) => Ok(()),
                },
            );
        }
    });
    let cols = long_subset(ctx, &[PType::U32, PType::I64, PType::F32], if ctx.thorough { &[1024, 1025, 2049] } else { &[2049] });
    ctx.bound("columns across block boundaries, chains of two slices at block boundaries");
    let thorough = ctx.thorough;
    explore(ctx, cols, Rich::Full, |s| {
        let sl = move |n: usize| -> Vec<Op> {
            let mut v = vec![];
            let h: &[usize] = if thorough { &[0, 1, 1023, 1024, 1025, 2047] } else { &[0, 1, 1023, 1024] };
            for a in h {
                for b in [1023, 1024, 1025, 2048, n.saturating_sub(1), n] {
                    if *a <= b && b <= n {
                        v.push(Op::Slice(*a, b));
                    }
                }
            }
            v
        };
        chains(ctx, s, &s.arr, &s.col, &mut vec![], 2, &sl);
    });
    ctx.bound("columns of 4100 and 66000 elements, chains of two slices in all blocks");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U16, PType::I64]), thorough), Rich::Full, |s| {
        let n = s.col.len();
        let sl = move |m: usize| -> Vec<Op> {
            let v = far_slices(m);
            if thorough || m == n { v } else { v.into_iter().skip(1).step_by(11).collect() }
        };
        chains(ctx, s, &s.arr, &s.col, &mut vec![], if n > 60_000 && !thorough { 1 } else { 2 }, &sl);
    });
}

fn after(ctx: &Ctx, s: &Subject, pre: &[Op], a: &Array, c: &Col, op: Op) {
    // skip operand representations that do not exist
    if let Op::Take(ix, how) = &op {
        if index_array(ix, *how).is_none() {
            return;
        }
    }
    if let Op::Filter(m, how) = &op {
        if mask_array(m, *how).is_none() {
            return;
        }
    }
    let want = apply_model(c, &op);
    ctx.check(
        || s.key(opname(&op), &format!("[{}],{}", path(pre), opstr(&op))),
        || {
            let r = apply_impl(a, &op).unwrap()?;
            same(&r, &want)
        },
    );
}

pub fn c04(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("columns of length 0..={hi}, every encoding and prelude; every index list of length 0..=2 (3 thorough) plus identity/reverse/repeat; 13 index representations"));
    explore(ctx, small(ctx.thorough, 0, hi), Rich::Full, |s| {
        for pre in preludes(s.col.len()) {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            let k = if ctx.thorough && pre.is_empty() { 3 } else { 2 };
            for (j, ix) in takes_for(c.len(), k).into_iter().enumerate() {
                after(ctx, s, &pre, &a, &c, Op::Take(ix.clone(), Ix::P(PType::U64)));
                if pre.len() <= 1 {
                    let how = IXS[1 + j % (IXS.len() - 1)];
                    after(ctx, s, &pre, &a, &c, Op::Take(ix.clone(), how));
                }
            }
            if pre.is_empty() {
                let full: Vec<usize> = (0..c.len()).rev().collect();
                for how in IXS {
                    after(ctx, s, &pre, &a, &c, Op::Take(full.clone(), how));
                    after(ctx, s, &pre, &a, &c, Op::Take(vec![], how));
                    if !full.is_empty() {
                        after(ctx, s, &pre, &a, &c, Op::Take(vec![c.len() - 1, c.len() - 1], how));
                    }
                }
            }
        }
    });
    let cols = long_subset(ctx, &[PType::U8, PType::U32, PType::I64, PType::F64], if ctx.thorough { &[1024, 1025, 2049] } else { &[2049] });
    ctx.bound("columns across block boundaries; index lists over block-boundary positions, dense, strided and repeated");
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(1000, n)], vec![Op::Slice(1024, n - 1)], vec![Op::Slice(3, 900.min(n))]] {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            for (j, ix) in takes_for(c.len(), 2).into_iter().enumerate() {
                if ix.len() == 2 && !ctx.thorough && j % 7 != 0 {
                    continue;
                }
                after(ctx, s, &pre, &a, &c, Op::Take(ix.clone(), if j % 4 == 3 { Ix::P(PType::I32) } else { Ix::P(PType::U64) }));
            }
        }
    });
    ctx.bound("columns of 4100 and 66000 elements, index lists reaching all blocks");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U16, PType::I64, PType::F64]), ctx.thorough), Rich::Full, |s| {
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(2500, n)], vec![Op::Slice(1025, n - 1)], vec![Op::Slice(n - 900, n - 1)]] {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            let m = c.len();
            let h = far_at(m);
            let mut lists = vec![h.clone(), h.iter().rev().copied().collect(), (0..m).step_by(7).collect(), (0..m).rev().step_by(3).collect(), (m.saturating_sub(40)..m).collect(), h.iter().flat_map(|i| vec![*i; 9]).collect(), (0..m).step_by(9).collect(), (0..m).filter(|i| i % 1024 < 100).collect(), (0..m).rev().step_by(10).collect(), (m / 3..m / 3 + m / 9).collect(), (0..m / 9).map(|i| (i * 1031) % m).collect()];
            lists.extend(h.iter().map(|i| vec![*i]));
            for (j, ix) in lists.into_iter().enumerate() {
                after(ctx, s, &pre, &a, &c, Op::Take(ix, [Ix::P(PType::U64), Ix::P(PType::U32), Ix::P(PType::I32)][j % 3]));
            }
        }
    });
}

/// The filter an encoding has of its own, where `filter` uses another.
fn own_filter(ctx: &Ctx, s: &Subject, pre: &[Op], a: &Array, c: &Col, m: &[bool], how: Mk) {
    if !matches!(c.dtype, DType::Primitive(..) | DType::Bool(_)) {
        return;
    }
    let f = |x: &dyn FilterFn| {
        let Some(k) = mask_array(m, how) else { return };
        let want = apply_model(c, &Op::Filter(m.to_vec(), how));
        ctx.check(
            || s.key("own-filter", &format!("[{}],{m:?},{how:?}", path(pre))),
            || match attempt(|| es(x.filter(&k))) {
                Ok(r) => same(&r, &want),
                Err(e) if e.contains("not implemented for") => Ok(ctx.refuse("mask")),
                Err(e) => Err(e),
            },
        );
    };
    if let Ok(p) = PrimitiveArray::try_from(a.clone()) {
        f(&p)
    } else if let Ok(b) = BoolArray::try_from(a.clone()) {
        f(&b)
    }
}

pub fn c05(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("columns of length 0..={hi}, every encoding and prelude; every mask; 10 mask representations"));
    explore(ctx, small(ctx.thorough, 0, hi), Rich::Full, |s| {
        for pre in preludes(s.col.len()) {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            for m in masks_for(c.len()) {
                if pre.is_empty() {
                    for how in MASKS {
                        after(ctx, s, &pre, &a, &c, Op::Filter(m.clone(), how));
                        own_filter(ctx, s, &pre, &a, &c, &m, how);
                    }
                } else {
                    own_filter(ctx, s, &pre, &a, &c, &m, Mk::Sliced);
                    after(ctx, s, &pre, &a, &c, Op::Filter(m.clone(), Mk::Plain));
                    after(ctx, s, &pre, &a, &c, Op::Filter(m.clone(), Mk::Sliced));
                }
            }
        }
    });
    let cols = long_subset(ctx, &[PType::U16, PType::I32, PType::F64], if ctx.thorough { &[1024, 1025, 2049] } else { &[2049] });
    ctx.bound("columns across block boundaries; masks with single bits / prefixes / suffixes at block boundaries, periodic masks");
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(1000, n)]] {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            for (j, m) in masks_for(c.len()).into_iter().enumerate() {
                if !ctx.thorough && j % 3 != 0 && j < 40 {
                    continue;
                }
                after(ctx, s, &pre, &a, &c, Op::Filter(m.clone(), MASKS[j % MASKS.len()]));
                own_filter(ctx, s, &pre, &a, &c, &m, MASKS[j % MASKS.len()]);
            }
        }
    });
    ctx.bound("columns of 4100 and 66000 elements, masks selecting in all blocks");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U16, PType::I64, PType::F64]), ctx.thorough), Rich::Full, |s| {
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(2500, n)], vec![Op::Slice(1025, n - 1)], vec![Op::Slice(n - 900, n - 1)]] {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            let m = c.len();
            let h = far_at(m);
            let mut masks: Vec<Vec<bool>> = vec![(0..m).map(|k| h.contains(&k)).collect(), (0..m).map(|k| !h.contains(&k)).collect(), (0..m).map(|k| k % 3 == 1).collect(), (0..m).map(|k| (k / 64) % 2 == 1).collect(), (0..m).map(|k| (k / 1024) % 2 == 1).collect()];
            for i in h.iter().skip(3).step_by(2) {
                masks.push((0..m).map(|k| k == *i).collect());
                masks.push((0..m).map(|k| k >= *i).collect());
                masks.push((0..m).map(|k| k < *i && k % 2 == 0).collect());
            }
            for (j, k) in masks.into_iter().enumerate() {
                after(ctx, s, &pre, &a, &c, Op::Filter(k, MASKS[j % MASKS.len()]));
            }
        }
    });
}

pub fn c11(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("columns of length 0..={hi}, every encoding and prelude, every position"));
    let chk = |s: &Subject, pre: &[Op], a: &Array, c: &Col| {
        ctx.check(
            || s.key("validity", &format!("[{}]", path(pre))),
            || {
                let want: Vec<bool> = c.vals.iter().map(|v| !v.is_null()).collect();
                let lv = a.with_dyn(|t| t.logical_validity());
                if lv.len() != c.len() {
                    return Err(format!("logical validity has length {} for array of length {}", lv.len(), c.len()));
                }
                let dt = c.dtype.clone();
                let la = observe(&lv.clone().into_validity_array(c.len())).map_err(|e| format!("logical validity: {e}"))?;
                for i in 0..c.len() {
                    let g = la.vals[i] == V::B(true);
                    if g != want[i] {
                        return Err(format!("logical validity at {i} is {g} (element {:?}, type {dt})", c.vals[i]));
                    }
                    let p = a.with_dyn(|t| t.is_valid(i));
                    if p != want[i] {
                        return Err(format!("is_valid({i}) is {p}"));
                    }
                    let sn = !es(scalar_at(a, i))?.value().is_null();
                    if sn != want[i] {
                        return Err(format!("scalar_at({i}) nullness disagrees: valid is {sn}"));
                    }
                }
                let nulls = want.iter().filter(|b| !**b).count();
                // the summary of a validity
                if lv.is_empty() != want.is_empty() || (lv.all_valid() && nulls > 0) || (lv.all_invalid() && nulls < want.len()) {
                    return Err(format!("{nulls} nulls of {} summarized as {lv:?}", want.len()));
                }
                let bits = |w: &[bool]| plain(&Col::new(DType::Bool(nn(false)), w.iter().map(|b| V::B(*b)).collect()));
                let re = es(LogicalValidity::try_new_from_array(lv.clone().into_array()))?;
                let all = (re.all_valid(), re.all_invalid());
                if re.len() != want.len() || re.is_empty() != want.is_empty() || (!want.is_empty() && all != (false, false) && all != (nulls == 0, nulls == want.len())) {
                    return Err(format!("{nulls} nulls of {} summarized anew as {re:?}", want.len()));
                }
                let v = Validity::Array(lv.clone().into_array());
                if v != Validity::Array(bits(&want)) {
                    return Err("the validity is not equal to itself".into());
                }
                for i in (0..want.len()).step_by(1 + want.len() / 4) {
                    let mut w = want.clone();
                    w[i] = !w[i];
                    if v == Validity::Array(bits(&w)) {
                        return Err(format!("the validity is equal to another, which differs at {i}"));
                    }
                }
                if let Some(k) = a.statistics_null_count() {
                    if k != nulls {
                        return Err(format!("null count statistic is {k} instead of {nulls}"));
                    }
                }
                same(a, c)
            },
        );
    };
    explore(ctx, small(ctx.thorough, 0, hi), Rich::Full, |s| {
        for pre in preludes(s.col.len()) {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                chk(s, &pre, &a, &c);
            }
        }
    });
    let cols = long_subset(ctx, &[PType::U32, PType::F64], &[1025, 2049]);
    explore(ctx, cols, Rich::Full, |s| {
        if !s.col.nullable() {
            return;
        }
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(1000, n - 1)], vec![Op::Slice(3, 1000), Op::Slice(4, 900)]] {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                chk(s, &pre, &a, &c);
            }
        }
    });
    ctx.bound("columns of 4100 and 66000 elements, slices in all blocks");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U16, PType::I64, PType::F64]), ctx.thorough), Rich::Full, |s| {
        if !s.col.nullable() || (s.col.len() > 60_000 && !ctx.thorough) {
            return;
        }
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(2500, n)], vec![Op::Slice(1025, n - 1)], vec![Op::Slice(2049, n), Op::Slice(1025, n - 2049)]] {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                chk(s, &pre, &a, &c);
            }
        }
    });
}

trait LvExt {
    fn into_validity_array(self, n: usize) -> Array;
}
impl LvExt for vortex::validity::LogicalValidity {
    fn into_validity_array(self, n: usize) -> Array {
        use vortex::validity::LogicalValidity as L;
        use vortex::IntoArray;
        match self {
            L::AllValid(_) => BoolArray::from(vec![true; n]).into_array(),
            L::AllInvalid(_) => BoolArray::from(vec![false; n]).into_array(),
            L::Array(a) => a,
        }
    }
}
trait NullCountExt {
    fn statistics_null_count(&self) -> Option<usize>;
}
impl NullCountExt for Array {
    fn statistics_null_count(&self) -> Option<usize> {
        use vortex::stats::ArrayStatistics;
        self.statistics().compute_null_count()
    }
}
