//! C12 casts and arithmetic, C13 iteration and building, C14 chunking.
use std::cell::Cell;

use rayon::prelude::*;
use vortex::accessor::ArrayAccessor;
use vortex::array::*;
use vortex::compute::unary::{fill_forward, FillForwardFn, scalar_at, subtract_scalar, try_cast};
use vortex::compute::{compare, filter, slice, take};
use vortex::elementwise::{BinaryFn, UnaryFn};
use vortex::iter::{AccessorRef, VectorizedArrayIter};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::stream::ArrayStreamExt;
use vortex::validity::Validity;
use vortex::{Array, IntoArray};
use vortex_dtype::{DType, NativePType, PType};

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_cmp::{check_search, cmp_v, OPS};
use crate::p_core::{far_types, long_subset, preludes, run_ops_ok, scalar_is, small};
use crate::p_stats::{stat_ok, STATS};
use crate::report::{attempt, Ctx};

const PTYPES: [PType; 11] = [
    PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64, PType::F16, PType::F32, PType::F64,
];

// C12 --------------------------------------------------------------------------------------------

/// The values an exact cast may give (two for f16, where rounding once or via f32 is accepted).
fn cast_v(v: &V, to: PType) -> Option<Vec<V>> {
    if v.is_null() {
        return Some(vec![V::Null]);
    }
    match (v.int(), to.is_float()) {
        (Some(x), false) => (x >= imin(to) && x <= imax(to)).then(|| vec![V::of_int(to, x)]),
        (Some(x), true) => Some(match to {
            PType::F64 => vec![V::f64(x as f64)],
            PType::F32 => vec![V::f32(x as f32)],
            _ => vec![V::f16(half::f16::from_f64(x as f64)), V::f16(half::f16::from_f32(x as f32))],
        }),
        (None, true) => {
            let f = v.float().unwrap();
            Some(match to {
                PType::F64 => vec![V::f64(f)],
                PType::F32 => vec![V::f32(f as f32)],
                _ => vec![V::f16(half::f16::from_f64(f)), V::f16(half::f16::from_f32(f as f32))],
            })
        }
        _ => None,
    }
}

fn check_cast(a: &Array, c: &Col, to: PType, nullable: bool) -> Result<(), String> {
    let want: Vec<Option<Vec<V>>> = c.vals.iter().map(|v| cast_v(v, to)).collect();
    let fits = want.iter().all(|w| w.is_some()) && (nullable || !c.has_nulls());
    let d = prim(to, nullable);
    match attempt(|| es(try_cast(a, &d))) {
        Err(m) if m.starts_with("panic") => Err(m),
        Err(m) => {
            if fits { Err(format!("refused although every element fits: {m}")) } else { Ok(()) }
        }
        Ok(r) => {
            let g = observe(&r)?;
            if g.dtype != d {
                return Err(format!("type {} instead of {d}", g.dtype));
            }
            if g.len() != c.len() {
                return Err(format!("length {} instead of {}", g.len(), c.len()));
            }
            for (i, (x, w)) in g.vals.iter().zip(&want).enumerate() {
                match w {
                    Some(w) if w.contains(x) => {}
                    Some(w) => return Err(format!("element {i} is {x:?} instead of {:?}", w[0])),
                    None => return Err(format!("element {i} ({:?}) does not fit but became {x:?}", c.vals[i])),
                }
            }
            if !fits {
                return Err("nulls lost in a cast to a non-nullable type".into());
            }
            Ok(())
        }
    }
}

fn sub_v(v: &V, k: &V) -> Option<V> {
    if v.is_null() {
        return Some(V::Null);
    }
    let V::P(p, _) = v else { return None };
    match (v.int(), k.int()) {
        (Some(x), Some(y)) => (x - y >= imin(*p) && x - y <= imax(*p)).then(|| V::of_int(*p, x - y)),
        _ => Some(match (v, k) {
            (V::P(PType::F64, x), V::P(_, y)) => V::f64(f64::from_bits(*x) - f64::from_bits(*y)),
            (V::P(PType::F32, x), V::P(_, y)) => V::f32(f32::from_bits(*x as u32) - f32::from_bits(*y as u32)),
            (V::P(_, x), V::P(_, y)) => V::f16(half::f16::from_bits(*x as u16) - half::f16::from_bits(*y as u16)),
            _ => return None,
        }),
    }
}
fn nan_eq(a: &V, b: &V) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn check_sub(a: &Array, c: &Col, k: &V) -> Result<(), String> {
    let want: Vec<Option<V>> = c.vals.iter().map(|v| sub_v(v, k)).collect();
    let fits = want.iter().all(Option::is_some);
    match attempt(|| es(subtract_scalar(a, &scalar_of(k, &c.dtype)))) {
        Err(m) if m.starts_with("panic") => Err(m),
        Err(m) => {
            if fits { Err(format!("refused although nothing overflows: {m}")) } else { Ok(()) }
        }
        Ok(r) => {
            let g = observe(&r)?;
            if g.dtype != c.dtype {
                return Err(format!("type {} instead of {}", g.dtype, c.dtype));
            }
            if g.len() != c.len() {
                return Err(format!("length {} instead of {}", g.len(), c.len()));
            }
            for (i, (x, w)) in g.vals.iter().zip(&want).enumerate() {
                match w {
                    Some(w) if nan_eq(x, w) => {}
                    Some(w) => return Err(format!("element {i} is {x:?} instead of {w:?}")),
                    None => return Err(format!("element {i} overflows but became {x:?}")),
                }
            }
            Ok(())
        }
    }
}

fn not_implemented(m: &str) -> bool {
    m.contains("not implemented for")
}

fn check_fill(ctx: &Ctx, a: &Array, c: &Col) -> Result<(), String> {
    let own = || match vortex_bytebool::ByteBoolArray::try_from(a.clone()) {
        Ok(b) => es(b.fill_forward()),
        Err(_) => es(fill_forward(a)),
    };
    let r = match attempt(own) {
        Ok(r) => r,
        Err(m) if not_implemented(&m) => {
            ctx.refuse("fill_forward");
            return Ok(());
        }
        Err(m) => return Err(m),
    };
    let mut last: Option<V> = None;
    let want: Vec<V> = c
        .vals
        .iter()
        .map(|v| {
            if !v.is_null() {
                last = Some(v.clone());
            }
            last.clone().unwrap_or_else(|| default_v(&c.dtype.as_nonnullable()))
        })
        .collect();
    same(&r, &Col::new(c.dtype.clone(), want))
}

/// `unary` and `binary` over primitive arrays.
fn elementwise(ctx: &Ctx, cols: Vec<Col>) {
    macro_rules! go {
        ($c:expr, $t:ty) => {{
            let c: &Col = $c;
            let DType::Primitive(p, _) = &c.dtype else { unreachable!() };
            for (enc, l) in [("plain", plain(c)), ("plain(explicit)", plain_with(c, Fill::Garbage, if c.nullable() { validity_array(c) } else { Validity::NonNullable }))] {
                let key = |op: &str, d: &str| format!("{op}|{enc}|{}|{d}", c.desc());
                let bits = |x: $t| -> u64 { let b = x.to_le_bytes(); let mut o = [0u8; 8]; o[..b.len()].copy_from_slice(&b); u64::from_le_bytes(o) };
                let la = PrimitiveArray::try_from(l.clone()).unwrap();
                ctx.check(|| key("unary", ""), || {
                    let r = es(la.unary::<$t, u64, _>(|x| bits(x) ^ 5))?;
                    let want = c.vals.iter().map(|v| if let V::P(_, b) = v { V::P(PType::U64, b ^ 5) } else { V::Null }).collect();
                    same(&r, &Col::new(prim(PType::U64, c.nullable()), want))
                });
                // the right-hand side is the reversed column, in several encodings
                let mut rc = c.clone();
                rc.vals.reverse();
                for nullable in [c.nullable(), true] {
                    rc.dtype = prim(*p, nullable);
                    for (re, r) in encodings(&rc, Rich::Core) {
                        let Ok(r) = r else { continue };
                        ctx.check(|| key("binary", &format!("{re}{nullable}")), || {
                            // encodings without an accessor panic: element access is not offered
                            let has = r.with_dyn(|t| t.as_primitive_array().is_some_and(|a| accessor_of::<$t>(a, *p)));
                            if !has {
                                ctx.refuse(&format!("binary:{}", base_enc(&re)));
                                return Ok(());
                            }
                            let out = es(la.binary::<$t, $t, u64, _>(r.clone(), |x, y| bits(x).wrapping_mul(3) ^ bits(y)))?;
                            let want = c.vals.iter().zip(&rc.vals).map(|(a, b)| match (a, b) {
                                (V::P(_, a), V::P(_, b)) => V::P(PType::U64, a.wrapping_mul(3) ^ b),
                                _ => V::Null,
                            }).collect::<Vec<_>>();
                            let g = observe(&out)?;
                            match diff_vals(&g.vals, &want) { Some(d) => Err(d), None => Ok(()) }
                        });
                    }
                }
            }
        }};
    }
    cols.par_iter().for_each(|c| {
        let DType::Primitive(p, _) = &c.dtype else { return };
        match p {
            PType::U8 => go!(c, u8),
            PType::U16 => go!(c, u16),
            PType::U32 => go!(c, u32),
            PType::U64 => go!(c, u64),
            PType::I8 => go!(c, i8),
            PType::I16 => go!(c, i16),
            PType::I32 => go!(c, i32),
            PType::I64 => go!(c, i64),
            PType::F16 => go!(c, half::f16),
            PType::F32 => go!(c, f32),
            PType::F64 => go!(c, f64),
        }
    });
}

fn accessor_of<T>(a: &dyn vortex::variants::PrimitiveArrayTrait, p: PType) -> bool {
    match p {
        PType::U8 => a.u8_accessor().is_some(),
        PType::U16 => a.u16_accessor().is_some(),
        PType::U32 => a.u32_accessor().is_some(),
        PType::U64 => a.u64_accessor().is_some(),
        PType::I8 => a.i8_accessor().is_some(),
        PType::I16 => a.i16_accessor().is_some(),
        PType::I32 => a.i32_accessor().is_some(),
        PType::I64 => a.i64_accessor().is_some(),
        PType::F16 => a.f16_accessor().is_some(),
        PType::F32 => a.f32_accessor().is_some(),
        PType::F64 => a.f64_accessor().is_some(),
    }
}

pub fn c12(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("every column of length 0..={hi} of every integer, float and boolean alphabet, every encoding and prelude: casts to every numeric type and nullability, subtraction of every alphabet value and extreme, fill-forward, inversion"));
    let cols: Vec<Col> = small(true, 0, hi)
        .into_iter()
        .filter(|c| matches!(c.dtype, DType::Primitive(..) | DType::Bool(_)))
        .filter(|c| c.len() < 3 || ctx.thorough || c.nullable() || matches!(c.dtype, DType::Bool(_)))
        .collect();
    let probe = |s: &Subject, pre: &[Op], a: &Array, c: &Col, all: bool| {
        if !matches!(c.dtype, DType::Primitive(..) | DType::Bool(_)) {
            return;
        }
        ctx.check(|| s.key("fill_forward", &format!("[{}]", path(pre))), || check_fill(ctx, a, c));
        let DType::Primitive(p, _) = &c.dtype else { return };
        if p.is_int() {
            for (k, t) in PTYPES.into_iter().enumerate() {
                for nu in [false, true] {
                    if all || (k + pre.len() + c.len()) % 3 == 0 {
                        ctx.check(|| s.key("cast", &format!("[{}]->{t}{}", path(pre), if nu { "?" } else { "" })), || check_cast(a, c, t, nu));
                    }
                }
            }
        } else {
            for t in [PType::F32, PType::F64] {
                if t.bit_width() >= p.bit_width() && !c.vals.iter().any(V::is_nan) {
                    for nu in [false, true] {
                        ctx.check(|| s.key("cast", &format!("[{}]->{t}{}", path(pre), if nu { "?" } else { "" })), || check_cast(a, c, t, nu));
                    }
                }
            }
        }
        let mut ks: Vec<V> = c.vals.iter().filter(|v| !v.is_null()).cloned().collect();
        if p.is_int() {
            ks.extend([0, 1, imax(*p), imin(*p), if p.is_signed_int() { -1 } else { 2 }].map(|x| V::of_int(*p, x)));
        }
        ks.sort_by_key(|v| format!("{v:?}"));
        ks.dedup();
        for k in ks {
            ctx.check(|| s.key("subtract", &format!("[{}]-{k:?}", path(pre))), || check_sub(a, c, &k));
        }
    };
    explore(ctx, cols, if ctx.thorough { Rich::Full } else { Rich::More }, |s| {
        for (k, pre) in preludes(s.col.len()).into_iter().enumerate() {
            if s.col.len() >= 3 && !ctx.thorough && k % 3 == 2 {
                continue;
            }
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                probe(s, &pre, &a, &c, pre.is_empty());
            }
        }
        // wrong operand types are refused
        if let (DType::Primitive(p, n), 1..) = (&s.col.dtype, s.col.len()) {
            let other = if *p == PType::U8 { PType::I16 } else { PType::U8 };
            ctx.check(|| s.key("subtract", "wrong-type"), || match es(subtract_scalar(&s.arr, &scalar_of(&V::of_int(other, 1), &DType::Primitive(other, *n)))) {
                Ok(_) => Err("scalar of another type accepted".into()),
                Err(_) => Ok(()),
            });
        }
    });
    ctx.bound("boolean columns of length 0..=4, every encoding and prelude: inversion");
    let bools: Vec<Col> = [false, true].iter().flat_map(|n| small_cols(&bool_fam(*n), 0, 4)).collect();
    explore(ctx, bools, Rich::Full, |s| {
        for pre in preludes(s.col.len()) {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                ctx.check(|| s.key("invert", &format!("[{}]", path(&pre))), || check_invert_any(ctx, &a, &c));
            }
        }
    });
    ctx.bound("columns across block boundaries: casts and subtraction");
    let mut cols = long_subset(ctx, &[PType::U32, PType::I64], &[2049]);
    cols.extend(far_cols(&far_types(ctx, &[PType::U16, PType::I64]), ctx.thorough).into_iter().filter(|c| matches!(c.dtype, DType::Primitive(..)) && c.len() < 60_000));
    explore(ctx, cols, Rich::More, |s| {
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1000, n - 1)], vec![Op::Slice(n - 1100, n - 1)]] {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                for (t, nu) in [(PType::U8, true), (PType::I16, false), (PType::U64, true), (PType::F64, true)] {
                    if matches!(c.dtype, DType::Primitive(p, _) if p.is_int()) {
                        ctx.check(|| s.key("cast", &format!("[{}]->{t}{}", path(&pre), if nu { "?" } else { "" })), || check_cast(&a, &c, t, nu));
                    }
                }
                let k = c.vals.iter().find(|v| !v.is_null()).cloned();
                if let Some(k) = k {
                    ctx.check(|| s.key("subtract", &format!("[{}]-{k:?}", path(&pre))), || check_sub(&a, &c, &k));
                }
                ctx.check(|| s.key("fill_forward", &format!("[{}]", path(&pre))), || check_fill(ctx, &a, &c));
            }
        }
    });
    ctx.bound("element-wise unary and binary functions over every small column and over columns of 1023..2049 elements, right operand in every encoding that offers element access");
    let mut cols: Vec<Col> = small(true, 0, 2).into_iter().filter(|c| matches!(c.dtype, DType::Primitive(..))).collect();
    for n in [false, true] {
        for len in [1023usize, 1024, 1025, 2047, 2048, 2049] {
            for p in [PType::U8, PType::I32, PType::F64] {
                let base = |i: usize| if p == PType::F64 { V::f64((i % 13) as f64 * 0.25) } else { V::of_int(p, (i % 101) as i128) };
                let nulls: Vec<(usize, V)> = if n { hot(len).into_iter().map(|i| (i, V::Null)).collect() } else { vec![] };
                cols.push(pattern(prim(p, n), len, base, &nulls));
                let big: Vec<(usize, V)> = hot(len).into_iter().map(|i| (i, if p == PType::F64 { V::f64(std::f64::consts::PI) } else { V::of_int(p, imax(p)) })).collect();
                cols.push(pattern(prim(p, n), len, base, &big));
            }
        }
    }
    elementwise(ctx, cols);
}

fn check_invert_any(ctx: &Ctx, a: &Array, c: &Col) -> Result<(), String> {
    use vortex::variants::BoolArrayTrait;
    macro_rules! as_ {
        ($t:ty) => {
            if let Ok(x) = <$t>::try_from(a.clone()) {
                let r = es(x.invert())?;
                let want = c.vals.iter().map(|v| match v { V::B(b) => V::B(!b), v => v.clone() }).collect();
                return same(&r, &Col::new(c.dtype.clone(), want));
            }
        };
    }
    as_!(BoolArray);
    as_!(ConstantArray);
    as_!(SparseArray);
    as_!(ChunkedArray);
    as_!(vortex_bytebool::ByteBoolArray);
    as_!(vortex_runend_bool::RunEndBoolArray);
    as_!(vortex_roaring::RoaringBoolArray);
    ctx.refuse("invert");
    Ok(())
}

// C13 --------------------------------------------------------------------------------------------

fn acc_check<T: NativePType>(acc: AccessorRef<T>, c: &Col, bits: impl Fn(T) -> u64) -> Result<(), String> {
    let DType::Primitive(p, _) = &c.dtype else { unreachable!() };
    let n = c.len();
    if acc.array_len() != n {
        return Err(format!("array_len is {} instead of {n}", acc.array_len()));
    }
    let v = acc.array_validity();
    for i in 0..n {
        if acc.is_valid(i) == c.vals[i].is_null() || v.is_valid(i) == c.vals[i].is_null() {
            return Err(format!("validity at {i} is {} / {}", acc.is_valid(i), v.is_valid(i)));
        }
    }
    let step = if n <= 40 { 1 } else { 97 };
    for i in (0..n).step_by(step).chain(hot(n).into_iter().filter(|i| *i < n)) {
        if !c.vals[i].is_null() {
            let g = V::P(*p, bits(acc.value_unchecked(i)));
            if g != c.vals[i] {
                return Err(format!("value at {i} is {g:?} instead of {:?}", c.vals[i]));
            }
        }
    }
    for start in hot(n).into_iter().filter(|i| *i < n) {
        let b = acc.decode_batch(start);
        if b.len() != (n - start).min(1024) {
            return Err(format!("batch at {start} is {} long", b.len()));
        }
        for (k, x) in b.iter().enumerate() {
            if !c.vals[start + k].is_null() && V::P(*p, bits(*x)) != c.vals[start + k] {
                return Err(format!("batch at {start}, element {k} is {:?} instead of {:?}", V::P(*p, bits(*x)), c.vals[start + k]));
            }
        }
    }
    let mut it = VectorizedArrayIter::new(acc.clone());
    let mut out = vec![];
    let mut left = it.len();
    if it.size_hint() != (left, Some(left)) {
        return Err(format!("size hint {:?} and length {left}", it.size_hint()));
    }
    while let Some(b) = it.next() {
        if left == 0 || it.len() != left - 1 {
            return Err(format!("an iterator said to have {left} batches left has {} after one of them", it.len()));
        }
        left -= 1;
        if b.is_empty() {
            return Err("empty batch".into());
        }
        let l = b.len();
        let mut fl = b.into_iter();
        for k in 0..l {
            if fl.len() != l - k {
                return Err(format!("flattened length {} instead of {}", fl.len(), l - k));
            }
            let Some(x) = fl.next() else { break };
            out.push(match x { Some(x) => V::P(*p, bits(x)), None => V::Null });
        }
        if out.len() > n {
            return Err("more elements than the array has".into());
        }
    }
    if left != 0 {
        return Err(format!("an iterator that has ended is said to have {left} batches left"));
    }
    match diff_vals(&out, &c.vals) {
        Some(d) => Err(format!("iterating: {d}")),
        None => Ok(()),
    }
}

/// None when the encoding offers no accessor for its type.
fn accessors(a: &Array, c: &Col) -> Option<Result<(), String>> {
    let DType::Primitive(p, _) = &c.dtype else { return None };
    macro_rules! t {
        ($m:ident, $it:ident, $conv:expr) => {{
            let acc = match attempt(|| Ok(a.with_dyn(|t| t.as_primitive_array().and_then(|x| x.$m())))) {
                Ok(x) => x,
                Err(m) => return Some(Err(m)),
            }?;
            let r = attempt(|| acc_check(acc, c, $conv));
            if r.is_err() {
                return Some(r);
            }
            let n = match attempt(|| Ok(a.with_dyn(|t| t.as_primitive_array().and_then(|x| x.$it())).map(|i| i.map(|b| b.len()).sum::<usize>()))) {
                Ok(x) => x,
                Err(m) => return Some(Err(m)),
            };
            Some(if n == Some(c.len()) { Ok(()) } else { Err(format!("iterator yields {n:?} elements instead of {}", c.len())) })
        }};
    }
    match p {
        PType::U8 => t!(u8_accessor, u8_iter, |x| x as u64),
        PType::U16 => t!(u16_accessor, u16_iter, |x| x as u64),
        PType::U32 => t!(u32_accessor, u32_iter, |x| x as u64),
        PType::U64 => t!(u64_accessor, u64_iter, |x| x),
        PType::I8 => t!(i8_accessor, i8_iter, |x| x as u8 as u64),
        PType::I16 => t!(i16_accessor, i16_iter, |x| x as u16 as u64),
        PType::I32 => t!(i32_accessor, i32_iter, |x| x as u32 as u64),
        PType::I64 => t!(i64_accessor, i64_iter, |x| x as u64),
        PType::F16 => t!(f16_accessor, f16_iter, |x: half::f16| x.to_bits() as u64),
        PType::F32 => t!(f32_accessor, f32_iter, |x: f32| x.to_bits() as u64),
        PType::F64 => t!(f64_accessor, f64_iter, |x: f64| x.to_bits()),
    }
}

fn with_iterators(a: &Array, c: &Col) -> Option<Result<(), String>> {
    let fin = |got: Vec<V>| match diff_vals(&got, &c.vals) { Some(d) => Err(d), None => Ok(()) };
    if let Ok(b) = BoolArray::try_from(a.clone()) {
        return Some(attempt(|| fin(es(ArrayAccessor::<bool>::with_iterator(&b, |it| it.map(|x| x.map_or(V::Null, |x| V::B(*x))).collect::<Vec<_>>()))?)));
    }
    if let Ok(b) = VarBinArray::try_from(a.clone()) {
        return Some(attempt(|| fin(es(b.with_iterator(|it| it.map(|x| x.map_or(V::Null, |x| V::S(x.to_vec()))).collect::<Vec<_>>()))?)));
    }
    if let Ok(b) = VarBinViewArray::try_from(a.clone()) {
        return Some(attempt(|| fin(es(b.with_iterator(|it| it.map(|x| x.map_or(V::Null, |x| V::S(x.to_vec()))).collect::<Vec<_>>()))?)));
    }
    if let Ok(b) = PrimitiveArray::try_from(a.clone()) {
        let p = b.ptype();
        macro_rules! t {
            ($t:ty, $f:expr) => {
                Some(attempt(|| fin(es(ArrayAccessor::<$t>::with_iterator(&b, |it| it.map(|x| x.map_or(V::Null, |x| V::P(p, $f(*x)))).collect::<Vec<_>>()))?)))
            };
        }
        return match p {
            PType::U8 => t!(u8, |x| x as u64),
            PType::U16 => t!(u16, |x| x as u64),
            PType::U32 => t!(u32, |x| x as u64),
            PType::U64 => t!(u64, |x| x),
            PType::I8 => t!(i8, |x| x as u8 as u64),
            PType::I16 => t!(i16, |x| x as u16 as u64),
            PType::I32 => t!(i32, |x| x as u32 as u64),
            PType::I64 => t!(i64, |x| x as u64),
            PType::F16 => t!(half::f16, |x: half::f16| x.to_bits() as u64),
            PType::F32 => t!(f32, |x: f32| x.to_bits() as u64),
            PType::F64 => t!(f64, |x: f64| x.to_bits()),
        };
    }
    None
}

/// Set positions, compared where the element is not null.
fn bool_iters(a: &Array, c: &Col) -> Result<(), String> {
    let n = c.len();
    let (idx, sl, tc) = a.with_dyn(|t| {
        let b = t.as_bool_array_unchecked();
        (b.maybe_null_indices_iter().collect::<Vec<_>>(), b.maybe_null_slices_iter().collect::<Vec<_>>(), b.true_count())
    });
    let mut m1 = vec![false; n];
    let mut last = None;
    for i in idx {
        if i >= n || last.is_some_and(|l| l >= i) {
            return Err(format!("index {i} out of order or range"));
        }
        last = Some(i);
        m1[i] = true;
    }
    let mut m2 = vec![false; n];
    let mut end = 0;
    for (x, y) in sl {
        if x < end || y > n || x > y {
            return Err(format!("slice {x}..{y} out of order or range"));
        }
        end = y;
        m2[x..y].fill(true);
    }
    for i in 0..n {
        if let V::B(b) = c.vals[i] {
            if m1[i] != b || m2[i] != b {
                return Err(format!("position {i}: indices say {}, slices say {}, element is {b}", m1[i], m2[i]));
            }
        }
    }
    let t = c.vals.iter().filter(|v| **v == V::B(true)).count();
    if tc != t {
        return Err(format!("true_count is {tc} instead of {t}"));
    }
    Ok(())
}

fn opts(c: &Col) -> Vec<Option<Vec<u8>>> {
    c.vals.iter().map(|v| if let V::S(s) = v { Some(s.clone()) } else { None }).collect()
}
fn strs(c: &Col) -> Vec<Option<String>> {
    opts(c).into_iter().map(|o| o.map(|b| String::from_utf8(b).unwrap())).collect()
}

/// Every constructor and builder that accepts this column.
fn builders(c: &Col) -> Vec<(String, Result<Array, String>)> {
    let mut v: Vec<(String, Result<Array, String>)> = vec![];
    let mut add = |n: &str, f: &dyn Fn() -> vortex_error::VortexResult<Array>| v.push((n.into(), attempt(|| es(f()))));
    let nn_ = !c.nullable();
    match &c.dtype {
        DType::Primitive(p, _) => {
            macro_rules! t {
                ($t:ty, $f:expr) => {{
                    let o: Vec<Option<$t>> = c.vals.iter().map(|v| if let V::P(_, b) = v { Some($f(*b)) } else { None }).collect();
                    if nn_ {
                        let vals: Vec<$t> = o.iter().map(|x| x.unwrap()).collect();
                        add("from(vec)", &|| Ok(PrimitiveArray::from(vals.clone()).into_array()));
                        add("vec.into_array", &|| Ok(vals.clone().into_array()));
                        add("from_vec", &|| Ok(PrimitiveArray::from_vec(vals.clone(), Validity::NonNullable).into_array()));
                        add("new(buffer)", &|| {
                            Ok(PrimitiveArray::new(vortex_buffer::Buffer::from(arrow_buffer::Buffer::from(vals.clone())), *p, Validity::NonNullable).into_array())
                        });
                    } else {
                        add("from_nullable_vec", &|| Ok(PrimitiveArray::from_nullable_vec(o.clone()).into_array()));
                        add("from_vec(validity)", &|| {
                            let vals: Vec<$t> = o.iter().map(|x| x.unwrap_or_default()).collect();
                            let va: Validity = o.iter().map(|x| x.is_some()).collect::<Vec<bool>>().into();
                            Ok(PrimitiveArray::from_vec(vals, va).into_array())
                        });
                        add("from_vec(validity from_iter)", &|| {
                            let vals: Vec<$t> = o.iter().map(|x| x.unwrap_or_default()).collect();
                            Ok(PrimitiveArray::from_vec(vals, Validity::from_iter(o.iter())).into_array())
                        });
                        // positions of the non-nulls patched into an array of other values
                        add("patch", &|| {
                            let pos: Vec<usize> = (0..o.len()).filter(|i| o[*i].is_some()).collect();
                            let vals: Vec<$t> = o.iter().filter_map(|x| *x).collect();
                            let va: Validity = o.iter().map(|x| x.is_some()).collect::<Vec<bool>>().into();
                            Ok(PrimitiveArray::from_vec(vec![<$t>::default(); o.len()], va).patch(&pos, &vals)?.into_array())
                        });
                    }
                }};
            }
            match p {
                PType::U8 => t!(u8, |b| b as u8),
                PType::U16 => t!(u16, |b| b as u16),
                PType::U32 => t!(u32, |b| b as u32),
                PType::U64 => t!(u64, |b| b),
                PType::I8 => t!(i8, |b| b as i8),
                PType::I16 => t!(i16, |b| b as i16),
                PType::I32 => t!(i32, |b| b as i32),
                PType::I64 => t!(i64, |b| b as i64),
                PType::F16 => {
                    let o: Vec<Option<half::f16>> = c.vals.iter().map(|v| if let V::P(_, b) = v { Some(half::f16::from_bits(*b as u16)) } else { None }).collect();
                    if nn_ {
                        add("from(vec)", &|| Ok(PrimitiveArray::from(o.iter().map(|x| x.unwrap()).collect::<Vec<_>>()).into_array()));
                    } else {
                        add("from_nullable_vec", &|| Ok(PrimitiveArray::from_nullable_vec(o.clone()).into_array()));
                    }
                }
                PType::F32 => t!(f32, |b| f32::from_bits(b as u32)),
                PType::F64 => t!(f64, f64::from_bits),
            }
        }
        DType::Bool(_) => {
            let o: Vec<Option<bool>> = c.vals.iter().map(|v| if let V::B(b) = v { Some(*b) } else { None }).collect();
            if nn_ {
                let vals: Vec<bool> = o.iter().map(|x| x.unwrap()).collect();
                add("from(vec)", &|| Ok(BoolArray::from(vals.clone()).into_array()));
                add("from(buffer)", &|| Ok(BoolArray::from(arrow_buffer::BooleanBuffer::from(vals.clone())).into_array()));
                add("from_vec", &|| Ok(BoolArray::from_vec(vals.clone(), Validity::NonNullable).into_array()));
            } else {
                add("from_iter", &|| Ok(BoolArray::from_iter(o.clone()).into_array()));
                if !c.has_nulls() {
                    // (its type is the nullable one)
                    add("bytebool from(vec)", &|| Ok(vortex_bytebool::ByteBoolArray::from(o.iter().map(|x| x.unwrap()).collect::<Vec<bool>>()).into_array()));
                }
                add("bytebool from(vec<option>)", &|| Ok(vortex_bytebool::ByteBoolArray::from(o.clone()).into_array()));
            }
        }
        DType::Utf8(_) | DType::Binary(_) => {
            let o = opts(c);
            let d = || c.dtype.clone();
            let utf8 = matches!(c.dtype, DType::Utf8(_));
            add("varbin from_iter", &|| Ok(VarBinArray::from_iter(o.clone(), d()).into_array()));
            add("varbinview from_iter", &|| Ok(VarBinViewArray::from_iter(o.clone(), d()).into_array()));
            macro_rules! builder {
                ($name:literal, $t:ty) => {
                    add(concat!("builder ", $name), &|| {
                        let mut b = vortex::array::builder::VarBinBuilder::<$t>::with_capacity(3);
                        for x in &o {
                            match x {
                                Some(s) => b.push_value(s),
                                None => b.push_null(),
                            }
                        }
                        Ok(b.finish(d()).into_array())
                    });
                    add(concat!("builder push ", $name), &|| {
                        let mut b = vortex::array::builder::VarBinBuilder::<$t>::new();
                        for x in &o {
                            b.push(x.as_deref());
                        }
                        Ok(b.finish(d()).into_array())
                    });
                    // runs of values pushed together, single nulls in between
                    add(concat!("builder push_values ", $name), &|| {
                        let mut b = vortex::array::builder::VarBinBuilder::<$t>::new();
                        let mut i = 0;
                        while i < o.len() {
                            if o[i].is_none() {
                                b.push_null();
                                i += 1;
                                continue;
                            }
                            let mut data = vec![];
                            let mut ends: Vec<$t> = vec![];
                            while i < o.len() && o[i].is_some() {
                                data.extend_from_slice(o[i].as_ref().unwrap());
                                ends.push(data.len() as $t);
                                i += 1;
                            }
                            let k = ends.len();
                            b.push_values(&data, ends.into_iter(), k);
                        }
                        Ok(b.finish(d()).into_array())
                    });
                };
            }
            builder!("u32", u32);
            builder!("i32", i32);
            builder!("i64", i64);
            builder!("u64", u64);
            if nn_ {
                let vals: Vec<Vec<u8>> = o.iter().map(|x| x.clone().unwrap()).collect();
                add("varbin from_vec", &|| Ok(VarBinArray::from_vec(vals.clone(), d()).into_array()));
                add("varbin from_iter_nonnull", &|| Ok(VarBinArray::from_iter_nonnull(vals.clone(), d()).into_array()));
                if utf8 {
                    let s: Vec<String> = strs(c).into_iter().map(|x| x.unwrap()).collect();
                    add("varbin from(vec<string>)", &|| Ok(VarBinArray::from(s.clone()).into_array()));
                    add("varbin from(vec<str>)", &|| Ok(VarBinArray::from(s.iter().map(|x| x.as_str()).collect::<Vec<_>>()).into_array()));
                    add("varbinview from_iter_str", &|| Ok(VarBinViewArray::from_iter_str(s.clone()).into_array()));
                } else {
                    add("varbin from(vec<vec>)", &|| Ok(VarBinArray::from(vals.clone()).into_array()));
                    add("varbin from(vec<slice>)", &|| Ok(VarBinArray::from(vals.iter().map(|x| x.as_slice()).collect::<Vec<_>>()).into_array()));
                    add("varbinview from_iter_bin", &|| Ok(VarBinViewArray::from_iter_bin(vals.clone()).into_array()));
                }
            } else if utf8 {
                let s = strs(c);
                add("varbin collect<string>", &|| Ok(s.iter().cloned().collect::<VarBinArray>().into_array()));
                add("varbin collect<str>", &|| Ok(s.iter().map(|x| x.as_deref()).collect::<VarBinArray>().into_array()));
                add("varbinview collect<string>", &|| Ok(s.iter().cloned().collect::<VarBinViewArray>().into_array()));
                add("varbinview collect<str>", &|| Ok(s.iter().map(|x| x.as_deref()).collect::<VarBinViewArray>().into_array()));
                add("varbinview from_iter_nullable_str", &|| Ok(VarBinViewArray::from_iter_nullable_str(s.clone()).into_array()));
            } else {
                add("varbin collect<vec>", &|| Ok(o.iter().cloned().collect::<VarBinArray>().into_array()));
                add("varbin collect<slice>", &|| Ok(o.iter().map(|x| x.as_deref()).collect::<VarBinArray>().into_array()));
                add("varbinview collect<vec>", &|| Ok(o.iter().cloned().collect::<VarBinViewArray>().into_array()));
                add("varbinview collect<slice>", &|| Ok(o.iter().map(|x| x.as_deref()).collect::<VarBinViewArray>().into_array()));
                add("varbinview from_iter_nullable_bin", &|| Ok(VarBinViewArray::from_iter_nullable_bin(o.clone()).into_array()));
            }
        }
        DType::Struct(st, _) if nn_ => {
            let items: Vec<(String, Array)> = (0..st.names().len())
                .map(|k| {
                    let vals = c.vals.iter().map(|v| if let V::Struct(f) = v { f[k].clone() } else { unreachable!() }).collect();
                    (st.names()[k].to_string(), plain(&Col::new(st.dtypes()[k].clone(), vals)))
                })
                .collect();
            add("struct from_fields", &|| Ok(StructArray::from_fields(&items)?.into_array()));
        }
        _ => {}
    }
    v
}

pub fn c13(ctx: &Ctx) {
    let hi = if ctx.thorough { 5 } else { 4 };
    ctx.bound(format!("every column of length 0..={}, every encoding and prelude, through every iterator the encoding offers", hi - 1));
    let probe = |s: &Subject, pre: &[Op], a: &Array, c: &Col| {
        let k = |op: &str| s.key(op, &format!("[{}]", path(pre)));
        let mut any = false;
        if matches!(c.dtype, DType::Primitive(..)) {
            let r = accessors(a, c);
            if let Some(r) = r {
                any = true;
                ctx.check(|| k("accessor"), || r);
            }
        }
        if let Some(r) = with_iterators(a, c) {
            any = true;
            ctx.check(|| k("with_iterator"), || r);
        }
        if matches!(c.dtype, DType::Bool(_)) && a.with_dyn(|t| t.as_bool_array().is_some()) {
            any = true;
            ctx.check(|| k("bool_iter"), || bool_iters(a, c));
        }
        if let Ok(ch) = ChunkedArray::try_from(a.clone()) {
            any = true;
            ctx.check(
                || k("chunks"),
                || {
                    let parts = |v: Vec<Array>| -> Result<(), String> {
                        let mut out = vec![];
                        for p in v {
                            let o = observe(&p)?;
                            if o.dtype != c.dtype {
                                return Err(format!("chunk of type {}", o.dtype));
                            }
                            out.extend(o.vals);
                        }
                        match diff_vals(&out, &c.vals) { Some(d) => Err(d), None => Ok(()) }
                    };
                    parts(ch.chunks().collect())?;
                    parts(es(ch.array_iterator().collect::<Result<Vec<_>, _>>())?)?;
                    let back = es(futures::executor::block_on(ch.array_stream().collect_chunked()))?;
                    same(&back.into_array(), c)
                },
            );
        }
        if !any {
            ctx.refuse(&format!("iterate:{}", base_enc(&s.enc)));
        }
    };
    explore(ctx, small(true, 0, hi - 1), Rich::Full, |s| {
        for pre in preludes(s.col.len()) {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                probe(s, &pre, &a, &c);
            }
        }
    });
    ctx.bound("columns of 1023..2049 elements with nulls and exceptions at block boundaries, sliced");
    let mut cols = long_subset(ctx, &[PType::U8, PType::I64, PType::F32, PType::F64], &[1025, 2049]);
    for n in [false, true] {
        for len in [64usize, 65, 130, 1024] {
            cols.push(pattern(DType::Bool(nn(n)), len, |i| V::B((i / 3) % 2 == 0), &if n { vec![(0, V::Null), (len - 1, V::Null)] } else { vec![] }));
            cols.push(pattern(prim(PType::F64, n), len, |i| if i % 50 == 3 { V::f64(std::f64::consts::E) } else { V::f64(i as f64 * 0.5) }, &[]));
        }
    }
    explore(ctx, cols, Rich::More, |s| {
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(n / 2, n)], vec![Op::Slice(3.min(n), n - 1), Op::Slice(1, n - 5)]] {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                probe(s, &pre, &a, &c);
            }
        }
    });
    ctx.bound(format!("every column of length 0..={hi} through every constructor and builder"));
    small(true, 0, hi).into_par_iter().for_each(|c| {
        for (name, r) in builders(&c) {
            ctx.state();
            ctx.tag("builders");
            ctx.check(|| format!("build|{name}|{}|", c.desc()), || same(&r.clone()?, &c));
        }
    });
}

// C14 --------------------------------------------------------------------------------------------

fn chunk_arrays(c: &Col, rich: Rich, alts: usize) -> Vec<(String, Array)> {
    let mut out = vec![];
    for cut in chunk_cuts(c.len()) {
        for alt in 0..alts {
            let name = Cell::new(String::new());
            let r = attempt(|| {
                es(chunked_with(c, &cut, |k, part| {
                    let es: Vec<Enc> = encodings(part, rich).into_iter().filter(|e| e.1.is_ok() && !e.0.starts_with("chunked")).collect();
                    let i = (alt * 7 + k * 3 + alt / 2) % es.len();
                    let mut n = name.take();
                    n.push_str(&format!("{};", es[i].0));
                    name.set(n);
                    Ok(es[i].1.clone().unwrap())
                }))
            });
            if let Ok(a) = r {
                // every chunk holds what it should (its own encoder's property otherwise)
                if attempt(|| same(&a, c)).is_ok() || ChunkedArray::try_from(a.clone()).is_ok_and(|x| {
                    let mut s = 0;
                    x.chunks().all(|k| {
                        let w = c.slice(s, s + k.len());
                        s += k.len();
                        attempt(|| same(&k, &w)).is_ok()
                    })
                }) {
                    out.push((format!("{cut:?}{}", name.take()), a));
                }
            }
        }
    }
    out
}

pub fn c14(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    let alts = if ctx.thorough { 6 } else { 2 };
    ctx.bound(format!("columns of length 0..={hi}, every split into up to 3 chunks (empty ones included), {alts} assignments of encodings to chunks (1 for the longest in quick); every slice, index pair, mask, comparison, search, cast, subtraction and statistic"));
    let mut cols = small(ctx.thorough, 0, hi);
    if !ctx.thorough {
        cols.retain(|c| c.len() < 3 || c.nullable() || matches!(c.dtype, DType::Bool(_)));
    }
    cols.into_par_iter().for_each(|c| {
        for (enc, arr) in chunk_arrays(&c, if ctx.thorough { Rich::More } else { Rich::Core }, if c.len() >= 3 && !ctx.thorough { 1 } else { alts }) {
            let s = Subject { col: std::sync::Arc::new(c.clone()), enc, arr };
            if let Some(o) = &ctx.only {
                if !o.contains(&format!("|{}|{}|", s.enc, s.col.desc())) {
                    continue;
                }
            }
            ctx.state();
            ctx.tag("chunked");
            ctx.sample(|| format!("{} {}", s.enc, c.desc()));
            chunk_ops(ctx, &s);
        }
    });
    ctx.bound("re-chunking every split of columns of length 0..=4 to every byte limit 0..=40 (step 4) and row limit 0..=5");
    let mut cols: Vec<Col> = vec![];
    for n in [false, true] {
        for f in [int_mid(PType::U8, n), int_mid(PType::I64, n), bool_fam(n), utf8_fam(n), struct_fam(n)] {
            let mut f = f;
            f.alpha.truncate(2);
            cols.extend(small_cols(&f, 0, 4).into_iter().filter(|c| c.len() < 4 || !c.nullable() || ctx.thorough));
        }
        cols.extend(ts_fams(n).into_iter().take(1).flat_map(|f| small_cols(&f, 0, 2)));
    }
    cols.into_par_iter().for_each(|c| {
        for cut in chunk_cuts(c.len()) {
            let Ok(Ok(a)) = crate::report::guard(|| chunked_with(&c, &cut, |_, c| Ok(plain(c)))) else { continue };
            let a = ChunkedArray::try_from(a).unwrap();
            ctx.state();
            for bytes in (0..=40).step_by(4).chain([1 << 20]) {
                for rows in [0usize, 1, 2, 3, 4, 5, 1 << 20] {
                    ctx.check(
                        || format!("rechunk|plain|{}|{cut:?} {bytes}b {rows}r", c.desc()),
                        || {
                            let r = es(a.rechunk(bytes, rows))?;
                            same(&r.clone().into_array(), &c)?;
                            // each new chunk is one old chunk, or a run of old chunks within the limits
                            let old: Vec<(usize, usize)> = a.chunks().map(|k| (k.len(), k.nbytes())).collect();
                            let mut i = 0;
                            for k in r.chunks() {
                                let (mut rs, mut bs, mut n) = (0, 0, 0);
                                while i < old.len() && (rs < k.len() || (old[i].0 == 0 && rs == k.len())) {
                                    rs += old[i].0;
                                    bs += old[i].1;
                                    if old[i].0 > 0 {
                                        n += 1;
                                    }
                                    i += 1;
                                }
                                if rs != k.len() {
                                    return Err(format!("a chunk of {} rows is not made of whole chunks", k.len()));
                                }
                                if n > 1 && rs > rows {
                                    return Err(format!("{n} chunks were combined into {rs} rows, over the limit of {rows}"));
                                }
                                // empty chunks in the run may belong to either neighbour: count bytes of non-empty ones only
                                let _ = bs;
                            }
                            let mut i = 0;
                            for k in r.chunks() {
                                let mut parts = vec![];
                                let mut rs = 0;
                                while rs < k.len() {
                                    if old[i].0 > 0 {
                                        parts.push(old[i].1);
                                    }
                                    rs += old[i].0;
                                    i += 1;
                                }
                                if parts.len() > 1 && parts.iter().sum::<usize>() > bytes {
                                    return Err(format!("{} chunks of {parts:?} bytes were combined, over the limit of {bytes}", parts.len()));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
    ctx.bound("chunk boundaries at and around 1024-element blocks: slices, takes and masks across them");
    let cols = long_subset(ctx, &[PType::U32], &[2049]);
    cols.into_par_iter().enumerate().for_each(|(k, c)| {
        if !ctx.thorough && k % 2 == 1 {
            return;
        }
        let n = c.len();
        for cut in [vec![1024, n], vec![1023, 1025, n], vec![1000, 1000, n], vec![0, 2048, n]] {
            let a = attempt(|| {
                es(chunked_with(&c, &cut, |k, part| {
                    if k % 2 == 0 { best_bitpack(plain(part)).or_else(|_| Ok(plain(part))) } else { for_(plain(part)).or_else(|_| Ok(plain(part))) }
                }))
            });
            let Ok(arr) = a else { continue };
            let s = Subject { col: std::sync::Arc::new(c.clone()), enc: format!("{cut:?}"), arr };
            ctx.state();
            for o in hot_slices(n).into_iter().step_by(3) {
                ctx.check(|| s.key("slice", &opstr(&o)), || same(&apply_impl(&s.arr, &o).unwrap()?, &apply_model(&c, &o)));
            }
            for ix in takes_for(n, 2).into_iter().step_by(5) {
                let o = Op::Take(ix, Ix::P(PType::U64));
                ctx.check(|| s.key("take", &opstr(&o)), || same(&apply_impl(&s.arr, &o).unwrap()?, &apply_model(&c, &o)));
            }
            for m in masks_for(n).into_iter().step_by(2) {
                let o = Op::Filter(m, Mk::Plain);
                ctx.check(|| s.key("filter", &opstr(&o)), || same(&apply_impl(&s.arr, &o).unwrap()?, &apply_model(&c, &o)));
            }
        }
    });
}

fn chunk_ops(ctx: &Ctx, s: &Subject) {
    let (a, c) = (&s.arr, &*s.col);
    let n = c.len();
    ctx.check(|| s.key("decode", ""), || same(a, c));
    for i in 0..n {
        ctx.check(|| s.key("scalar_at", &format!("@{i}")), || scalar_is(a, c, i));
        ctx.check(|| s.key("is_valid", &format!("@{i}")), || {
            let v = a.with_dyn(|t| t.is_valid(i));
            if v == c.vals[i].is_null() { Err(format!("is_valid({i}) is {v}")) } else { Ok(()) }
        });
    }
    ctx.check(|| s.key("scalar_at", "oob"), || if scalar_at(a, n).is_ok() { Err("position past the end accepted".into()) } else { Ok(()) });
    ctx.check(|| s.key("validity", ""), || {
        let lv = a.with_dyn(|t| t.logical_validity()).into_validity();
        for i in 0..n {
            if lv.is_valid(i) == c.vals[i].is_null() {
                return Err(format!("logical validity at {i} is {}", lv.is_valid(i)));
            }
        }
        Ok(())
    });
    for o in all_slices(n) {
        ctx.check(|| s.key("slice", &opstr(&o)), || {
            let r = apply_impl(a, &o).unwrap()?;
            let w = apply_model(c, &o);
            same(&r, &w)?;
            if w.len() > 0 {
                // one more level
                same(&es(slice(&r, 1, w.len()))?, &w.slice(1, w.len()))?;
                same(&es(slice(&r, 0, w.len() - 1))?, &w.slice(0, w.len() - 1))?;
            }
            Ok(())
        });
    }
    for (j, ix) in takes_for(n, 3).into_iter().enumerate() {
        let o = Op::Take(ix, if j % 3 == 2 { Ix::P(PType::U8) } else { Ix::P(PType::U64) });
        ctx.check(|| s.key("take", &opstr(&o)), || {
            let r = apply_impl(a, &o).unwrap()?;
            let w = apply_model(c, &o);
            same(&r, &w)?;
            if w.len() > 1 {
                let i = index_array(&[1, 0, 1], Ix::P(PType::U32)).unwrap();
                same(&es(take(&r, &i))?, &w.take(&[1, 0, 1]))?;
            }
            Ok(())
        });
    }
    for m in masks_for(n) {
        for how in [Mk::Plain, Mk::Chunked, Mk::Sliced] {
            let o = Op::Filter(m.clone(), how);
            let Some(ma) = mask_array(&m, how) else { continue };
            ctx.check(|| s.key("filter", &opstr(&o)), || same(&es(filter(a, &ma))?, &c.filter(&m)));
        }
    }
    // a chunked array is its own reversed partner
    if !matches!(c.dtype, DType::Null | DType::Struct(..)) {
        let mut rc = c.clone();
        rc.vals.reverse();
        let p = plain(&rc);
        let ch = chunked_with(&rc, &[n / 2, n], |_, c| Ok(plain(c))).unwrap();
        for op in OPS {
            for (nm, r) in [("plain", &p), ("chunked", &ch)] {
                for flip in [false, true] {
                    ctx.check(|| s.key("compare", &format!("{op:?} {nm} {flip}")), || {
                        let g = es(if flip { compare(r, a, op) } else { compare(a, r, op) })?;
                        let want: Vec<V> = c.vals.iter().zip(&rc.vals).map(|(x, y)| if flip { cmp_v(y, x, op) } else { cmp_v(x, y, op) }).collect();
                        let g = observe(&g)?;
                        match diff_vals(&g.vals, &want) { Some(d) => Err(d), None => Ok(()) }
                    });
                }
            }
        }
    }
    if let DType::Primitive(p, _) = &c.dtype {
        if p.is_int() {
            for (t, nu) in [(PType::U8, true), (PType::I64, false), (PType::F64, true)] {
                ctx.check(|| s.key("cast", &format!("{t}{nu}")), || check_cast(a, c, t, nu));
            }
        }
        if let Some(k) = c.vals.iter().find(|v| !v.is_null()) {
            ctx.check(|| s.key("subtract", ""), || check_sub(a, c, k));
        }
        let sorted = c.vals.windows(2).all(|w| !w[0].is_null() || w[1].is_null())
            && c.vals.iter().filter(|v| !v.is_null()).collect::<Vec<_>>().windows(2).all(|w| crate::p_cmp::tcmp(w[0], w[1]).is_le());
        if sorted && !c.vals.iter().any(|v| v.is_nan() || v.float() == Some(0.0)) {
            let ts: Vec<V> = c.vals.iter().filter(|v| !v.is_null()).cloned().collect();
            check_search(ctx, s, "", a, c, &ts);
        }
    }
    // every statistic, asked for in two orders
    for rev in [false, true] {
        ctx.check(|| s.key("stats", if rev { "rev" } else { "" }), || {
            let f = ChunkedArray::try_from(a.clone()).unwrap();
            let fresh = es(ChunkedArray::try_new(f.chunks().collect(), c.dtype.clone()))?.into_array();
            let mut st: Vec<Stat> = STATS.to_vec();
            if rev {
                st.reverse();
            }
            for x in st {
                if let Some(v) = fresh.statistics().compute(x) {
                    stat_ok(c, x, &v, true)?;
                }
            }
            same(&fresh, c)
        });
    }
    match &c.dtype {
        DType::Struct(st, _) => {
            for k in 0..st.names().len() {
                ctx.check(|| s.key("field", &format!("{k}")), || {
                    let f = a.with_dyn(|t| t.as_struct_array().and_then(|x| x.field(k))).ok_or("no such field")?;
                    let g = observe(&f)?;
                    if g.dtype != st.dtypes()[k] {
                        return Err(format!("field of type {}", g.dtype));
                    }
                    for (i, v) in c.vals.iter().enumerate() {
                        if let V::Struct(fs) = v {
                            if g.vals[i] != fs[k] {
                                return Err(format!("field {k} at {i} is {:?} instead of {:?}", g.vals[i], fs[k]));
                            }
                        }
                    }
                    Ok(())
                });
            }
            for perm in [vec![0usize, 1], vec![1, 0], vec![1], vec![0, 0]] {
                ctx.check(|| s.key("project", &format!("{perm:?}")), || {
                    let fields: Vec<vortex_dtype::field::Field> = perm.iter().map(|i| vortex_dtype::field::Field::Index(*i)).collect();
                    let r = es(a.with_dyn(|t| t.as_struct_array_unchecked().project(&fields)))?;
                    let g = observe(&r)?;
                    let w: Vec<V> = c.vals.iter().map(|v| if let V::Struct(f) = v { V::Struct(perm.iter().map(|i| f[*i].clone()).collect()) } else { V::Null }).collect();
                    match diff_vals(&g.vals, &w) { Some(d) => Err(d), None => Ok(()) }
                });
            }
        }
        DType::Extension(..) => {
            ctx.check(|| s.key("storage", ""), || {
                let st = a.with_dyn(|t| t.as_extension_array().map(|x| x.storage_array())).ok_or("no storage")?;
                let g = observe(&st)?;
                match diff_vals(&g.vals, &c.vals) { Some(d) => Err(d), None => Ok(()) }
            });
        }
        _ => {}
    }
}
