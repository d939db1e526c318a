//! What the elements of a column say about its statistics.
use std::cmp::Ordering;

use vortex::stats::{ArrayStatistics, Stat};
use vortex::Array;
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;

use crate::model::*;
use crate::ops::*;
use crate::report::attempt;

/// Total order of non-null values (floats by IEEE total order, as arrow and the scalars do).
pub fn tcmp(a: &V, b: &V) -> Ordering {
    match (a, b) {
        (V::P(PType::F16, x), V::P(_, y)) => half::f16::from_bits(*x as u16).total_cmp(&half::f16::from_bits(*y as u16)),
        (V::P(PType::F32, x), V::P(_, y)) => f32::from_bits(*x as u32).total_cmp(&f32::from_bits(*y as u32)),
        (V::P(PType::F64, x), V::P(_, y)) => f64::from_bits(*x).total_cmp(&f64::from_bits(*y)),
        _ => vcmp(a, b).unwrap(),
    }
}
pub const STATS: [Stat; 10] = [
    Stat::BitWidthFreq, Stat::TrailingZeroFreq, Stat::IsConstant, Stat::IsSorted, Stat::IsStrictSorted, Stat::Max, Stat::Min, Stat::RunCount,
    Stat::TrueCount, Stat::NullCount,
];

pub fn comparable(d: &DType) -> bool {
    matches!(d, DType::Bool(_) | DType::Primitive(..) | DType::Utf8(_) | DType::Binary(_) | DType::Extension(..))
}

pub fn num(s: &Scalar) -> Result<u64, String> {
    attempt(|| es(s.cast(&prim(PType::U64, false)).and_then(|s| u64::try_from(&s)))).map_err(|_| format!("is not a count: {:?}", s.value()))
}
pub fn flag(s: &Scalar) -> Result<bool, String> {
    attempt(|| es(bool::try_from(s))).map_err(|_| format!("is not a boolean: {:?}", s.value()))
}
pub fn hist(s: &Scalar) -> Result<Vec<u64>, String> {
    attempt(|| es(Vec::<u64>::try_from(s))).map_err(|_| format!("is not a histogram: {:?}", s.value()))
}

/// What a column's elements say about a statistic's value. `exact` is false for merged or chunked
/// arrays, where the run count is an upper bound.
pub fn stat_ok(c: &Col, stat: Stat, v: &Scalar, bounded_runs: bool) -> Result<(), String> {
    let nn: Vec<&V> = c.vals.iter().filter(|v| !v.is_null()).collect();
    let nulls = c.len() - nn.len();
    let nan = nn.iter().any(|v| v.is_nan());
    let bad = |w: String| Err(format!("{stat} is {:?} instead of {w}", v.value()));
    match stat {
        Stat::NullCount => {
            if num(v)? != nulls as u64 {
                return bad(nulls.to_string());
            }
        }
        Stat::TrueCount => {
            let t = nn.iter().filter(|v| ***v == V::B(true)).count();
            if !matches!(c.dtype, DType::Bool(_)) {
                return Err(format!("{stat} present for type {}", c.dtype));
            }
            if num(v)? != t as u64 {
                return bad(t.to_string());
            }
        }
        Stat::IsConstant => {
            let k = c.vals.windows(2).all(|w| w[0] == w[1]);
            let g = flag(v)?;
            if c.len() > 0 && g != k && !(nan && !g) {
                return bad(k.to_string());
            }
        }
        Stat::IsSorted | Stat::IsStrictSorted => {
            if !comparable(&c.dtype) {
                return Ok(());
            }
            let ok = |o: Ordering| if stat == Stat::IsSorted { o.is_le() } else { o.is_lt() };
            let k = nn.windows(2).all(|w| ok(tcmp(w[0], w[1])));
            let g = flag(v)?;
            if g != k && (g || nulls == 0) {
                return bad(k.to_string());
            }
        }
        Stat::Min | Stat::Max => {
            let w = nn.iter().copied().reduce(|a, b| if (tcmp(a, b) == Ordering::Less) == (stat == Stat::Min) { a } else { b });
            let g = from_sv(v.value(), &c.dtype.as_nullable()).map_err(|e| format!("{stat} is unreadable: {e}"))?;
            match w {
                None => {
                    if !g.is_null() {
                        return bad("null".into());
                    }
                }
                Some(w) => {
                    if g.is_null() || tcmp(&g, w) != Ordering::Equal {
                        return bad(format!("{w:?}"));
                    }
                }
            }
        }
        Stat::RunCount => {
            if !comparable(&c.dtype) {
                return Ok(());
            }
            let lo = if nn.is_empty() { 0 } else { 1 + nn.windows(2).filter(|w| w[0] != w[1]).count() as u64 };
            let mut hi = if c.len() == 0 { 0 } else { 1 + c.vals.windows(2).filter(|w| w[0] != w[1]).count() as u64 };
            if bounded_runs {
                hi = u64::MAX;
            }
            let g = num(v)?;
            if g < lo || g > hi.max(lo) {
                return bad(format!("{lo}..={hi}"));
            }
        }
        Stat::BitWidthFreq | Stat::TrailingZeroFreq => {
            let DType::Primitive(p, _) = &c.dtype else {
                return Err(format!("{stat} present for type {}", c.dtype));
            };
            let w = p.bit_width();
            let mut h = vec![0u64; w + 1];
            for x in &c.vals {
                let i = match x {
                    V::P(p, bits) => {
                        if p.is_float() {
                            if stat == Stat::BitWidthFreq { w } else { 0 }
                        } else if stat == Stat::BitWidthFreq {
                            64 - bits.leading_zeros() as usize
                        } else if *bits == 0 {
                            w
                        } else {
                            bits.trailing_zeros() as usize
                        }
                    }
                    _ => {
                        if stat == Stat::BitWidthFreq { 0 } else { w }
                    }
                };
                h[i] += 1;
            }
            if c.len() > 0 && hist(v)? != h {
                return bad(format!("{h:?}"));
            }
        }
    }
    Ok(())
}

pub fn chunked_below(a: &Array) -> bool {
    a.encoding().id().as_ref() == "vortex.chunked" || a.children().iter().any(chunked_below)
}

/// Every statistic already present on the array and on everything inside it.
pub fn present(a: &Array, path: &str) -> Result<u64, String> {
    let mut n = 0;
    let mut col = None;
    for s in STATS {
        if let Some(v) = a.statistics().get(s) {
            if col.is_none() {
                col = Some(observe(a)?);
            }
            stat_ok(col.as_ref().unwrap(), s, &v, chunked_below(a)).map_err(|e| format!("{path}{}: {e}", a.encoding().id().as_ref()))?;
            n += 1;
        }
    }
    for k in a.children() {
        n += present(&k, &format!("{path}{}/", a.encoding().id().as_ref()))?;
    }
    Ok(n)
}
