//! Columns to explore and every way of encoding each of them.
use std::sync::Arc;

use vortex::array::*;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray, IntoArrayVariant};
use vortex_datetime_dtype::TimeUnit;
use vortex_dtype::{DType, PType, StructDType};
use vortex_error::VortexResult;

use crate::model::*;
use crate::report::attempt;

// ---------------------------------------------------------------------------------------------
// Columns

/// An element type together with the alphabet its columns are drawn from (Null excluded).
#[derive(Clone)]
pub struct Fam {
    pub name: String,
    pub dtype: DType,
    pub alpha: Vec<V>,
}

pub const INTS: [PType; 8] =
    [PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64];

pub fn imin(p: PType) -> i128 {
    if p.is_signed_int() { -(1i128 << (p.bit_width() - 1)) } else { 0 }
}
pub fn imax(p: PType) -> i128 {
    if p.is_signed_int() { (1i128 << (p.bit_width() - 1)) - 1 } else { (1i128 << p.bit_width()) - 1 }
}

pub fn int_fam(p: PType, vals: &[i128], n: bool) -> Fam {
    Fam { name: format!("{p}"), dtype: prim(p, n), alpha: vals.iter().map(|x| V::of_int(p, *x)).collect() }
}
/// small values, a multiple of 4, an exception for narrow widths
pub fn int_mid(p: PType, n: bool) -> Fam {
    if p.is_signed_int() { int_fam(p, &[-3, 4, 100], n) } else { int_fam(p, &[1, 4, 100], n) }
}
pub fn int_ext(p: PType, n: bool) -> Fam {
    if p.is_signed_int() { int_fam(p, &[imin(p), -1, imax(p)], n) } else { int_fam(p, &[0, 2, imax(p)], n) }
}
pub fn int_zero(p: PType, n: bool) -> Fam {
    if p.is_signed_int() { int_fam(p, &[0, 8], n) } else { int_fam(p, &[0, 8], n) }
}
/// a wide range with trailing zeros
pub fn int_wide(p: PType, n: bool) -> Fam {
    if p.is_signed_int() { int_fam(p, &[imin(p), 0, imax(p) - 3], n) } else { int_fam(p, &[8, 16, imax(p) - 7], n) }
}
pub fn float_fams(n: bool) -> Vec<Fam> {
    let f64s = |name: &str, v: &[f64]| Fam { name: name.into(), dtype: prim(PType::F64, n), alpha: v.iter().map(|x| V::f64(*x)).collect() };
    let f32s = |name: &str, v: &[f32]| Fam { name: name.into(), dtype: prim(PType::F32, n), alpha: v.iter().map(|x| V::f32(*x)).collect() };
    let f16s = |name: &str, v: &[f32]| Fam { name: name.into(), dtype: prim(PType::F16, n), alpha: v.iter().map(|x| V::f16(half::f16::from_f32(*x))).collect() };
    vec![
        f64s("f64", &[0.0, -1.5, 3.25]),
        f64s("f64z", &[0.0, -0.0, 0.1]),
        f64s("f64x", &[f64::NAN, 1e300, f64::NEG_INFINITY]),
        f32s("f32", &[0.0, -1.5, 0.1]),
        f32s("f32x", &[f32::NAN, -0.0, f32::MAX]),
        f16s("f16", &[0.0, -1.5, 3.25]),
        f16s("f16x", &[f32::NAN, -0.0, f32::INFINITY]),
    ]
}
pub fn bool_fam(n: bool) -> Fam {
    Fam { name: "bool".into(), dtype: DType::Bool(nn(n)), alpha: vec![V::B(false), V::B(true)] }
}
pub fn utf8_fam(n: bool) -> Fam {
    Fam { name: "utf8".into(), dtype: DType::Utf8(nn(n)), alpha: vec![V::s(""), V::s("ab"), V::s("abcdefghijklm")] }
}
pub fn utf8_fam2(n: bool) -> Fam {
    Fam { name: "utf8p".into(), dtype: DType::Utf8(nn(n)), alpha: vec![V::s("abcdefghijkl\u{e9}"), V::s("abcdefghijklz"), V::s("abcdefghijkl")] }
}
pub fn bin_fam(n: bool) -> Fam {
    Fam { name: "bin".into(), dtype: DType::Binary(nn(n)), alpha: vec![V::S(vec![]), V::S(vec![0]), V::S(vec![255; 14])] }
}
pub fn null_fam() -> Fam {
    Fam { name: "null".into(), dtype: DType::Null, alpha: vec![V::Null] }
}
pub fn struct_dtype(names: &[&str], dts: Vec<DType>, n: bool) -> DType {
    DType::Struct(StructDType::new(names.iter().map(|s| Arc::<str>::from(*s)).collect::<Vec<_>>().into(), dts), nn(n))
}
pub fn struct_fam(n: bool) -> Fam {
    let d = struct_dtype(&["a", "b"], vec![prim(PType::I32, true), DType::Utf8(nn(false))], n);
    let st = |a: V, b: &str| V::Struct(vec![a, V::s(b)]);
    Fam {
        name: "struct".into(),
        dtype: d,
        alpha: vec![st(V::of_int(PType::I32, 7), "x"), st(V::Null, "y"), st(V::of_int(PType::I32, -1), "long string over twelve")],
    }
}
/// A struct of a struct of many parts (more than a few buffers) followed by more fields.
pub fn wide_fam() -> Fam {
    let mut dts = vec![DType::Bool(nn(true))];
    let mut names = vec!["c0".to_string()];
    for (i, p) in [PType::U8, PType::I16, PType::U32, PType::F64].into_iter().enumerate() {
        dts.push(prim(p, i % 2 == 0));
        names.push(format!("c{}", i + 1));
    }
    dts.push(DType::Utf8(nn(true)));
    dts.push(DType::Binary(nn(false)));
    names.extend(["c5".into(), "c6".into()]);
    let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let inner = struct_dtype(&names, dts, true);
    let d = struct_dtype(&["wide", "text", "num"], vec![inner, DType::Utf8(nn(true)), prim(PType::I64, false)], false);
    let w = |k: i128, t: &str| {
        V::Struct(vec![
            if k % 2 == 0 { V::Null } else { V::B(k > 0) },
            V::of_int(PType::U8, k + 1),
            V::of_int(PType::I16, -k),
            if k == 0 { V::Null } else { V::of_int(PType::U32, 70_000 + k) },
            V::f64(k as f64 + 0.5),
            V::s(t),
            V::S(vec![k as u8; 14]),
        ])
    };
    let row = |i: V, t: V, k: i128| V::Struct(vec![i, t, V::of_int(PType::I64, k)]);
    Fam {
        name: "wide".into(),
        dtype: d,
        alpha: vec![row(w(3, "three and some more"), V::s("a text of some length"), -1), row(V::Null, V::s("b"), 1 << 40), row(w(0, ""), V::Null, 7)],
    }
}
pub fn temporal(name: &str, p: PType, vals: &[i64], n: bool, unit: TimeUnit, tz: Option<&str>, kind: u8) -> Fam {
    let c = Col::new(prim(p, n), vec![]);
    let st = plain(&c);
    let t = match kind {
        0 => TemporalArray::new_timestamp(st, unit, tz.map(|s| s.to_string())),
        1 => TemporalArray::new_date(st, unit),
        _ => TemporalArray::new_time(st, unit),
    };
    let d = Array::from(t).dtype().clone();
    Fam { name: name.into(), dtype: d, alpha: vals.iter().map(|x| V::of_int(p, *x as i128)).collect() }
}
pub fn ts_fams(n: bool) -> Vec<Fam> {
    vec![
        temporal("ts_us", PType::I64, &[0, 1_690_000_000_123_456, -1], n, TimeUnit::Us, Some("UTC"), 0),
        temporal("ts_ns", PType::I64, &[86_400_000_000_000, -86_400_000_000_001, i64::MAX], n, TimeUnit::Ns, None, 0),
        temporal("ts_ms", PType::I64, &[86_399_999, -999, i64::MIN], n, TimeUnit::Ms, None, 0),
        temporal("ts_s", PType::I64, &[86_400, -86_401, 59], n, TimeUnit::S, None, 0),
        temporal("date_d", PType::I32, &[0, -1, 19_000], n, TimeUnit::D, None, 1),
        temporal("date_ms", PType::I64, &[0, -86_400_000, 86_400_000 * 19_000], n, TimeUnit::Ms, None, 1),
        temporal("time_s", PType::I32, &[0, 86_399, 60], n, TimeUnit::S, None, 2),
        temporal("time_ms", PType::I32, &[0, 86_399_999, 61_001], n, TimeUnit::Ms, None, 2),
        temporal("time_ns", PType::I64, &[0, 86_399_999_999_999, 60], n, TimeUnit::Ns, None, 2),
    ]
}

/// Every sequence of length n over the alphabet.
pub fn seqs<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        let mut next = Vec::with_capacity(out.len() * alpha.len());
        for s in &out {
            for a in alpha {
                let mut t = s.clone();
                t.push(a.clone());
                next.push(t);
            }
        }
        out = next;
    }
    out
}

/// All columns of a family with length lo..=hi (Null joins the alphabet when the type is nullable).
pub fn small_cols(f: &Fam, lo: usize, hi: usize) -> Vec<Col> {
    let mut a = f.alpha.clone();
    if f.dtype.is_nullable() && f.dtype != DType::Null {
        a.push(V::Null);
    }
    (lo..=hi).flat_map(|n| seqs(&a, n)).map(|v| Col::new(f.dtype.clone(), v)).collect()
}

/// The families, both nullabilities.
pub fn all_fams(full: bool) -> Vec<Fam> {
    let mut out = vec![null_fam()];
    for n in [false, true] {
        for p in INTS {
            if full || matches!(p, PType::U8 | PType::U32 | PType::U64 | PType::I8 | PType::I32 | PType::I64) {
                out.push(int_mid(p, n));
            }
            if full || matches!(p, PType::U16 | PType::U64 | PType::I16 | PType::I64) {
                out.push(int_ext(p, n));
            }
            if full {
                out.push(int_zero(p, n));
                out.push(int_wide(p, n));
            }
        }
        out.extend(float_fams(n));
        out.push(bool_fam(n));
        out.push(utf8_fam(n));
        if full {
            out.push(utf8_fam2(n));
        }
        out.push(bin_fam(n));
        out.push(struct_fam(n));
        out.extend(ts_fams(n));
    }
    if full {
        out.push(wide_fam());
    }
    out
}

/// A long column: `base(i)`, except at the positions listed.
pub fn pattern(dtype: DType, n: usize, base: impl Fn(usize) -> V, exc: &[(usize, V)]) -> Col {
    let mut v: Vec<V> = (0..n).map(base).collect();
    for (i, x) in exc {
        if *i < n {
            v[*i] = x.clone();
        }
    }
    Col::new(dtype, v)
}

/// Positions around the 1024-element block boundaries of a column of length n, and its ends.
pub fn hot(n: usize) -> Vec<usize> {
    let mut h: Vec<usize> = [0usize, 1, 2, 1022, 1023, 1024, 1025, 2046, 2047, 2048, 2049]
        .iter()
        .copied()
        .chain(n.saturating_sub(2)..=n)
        .filter(|i| *i <= n)
        .collect();
    h.sort();
    h.dedup();
    h
}

/// Long columns that cross block boundaries: for each length, monotone / constant / narrow bases
/// with an exceptional value or a null at every subset of up to two hot positions.
pub fn long_cols(p: PType, nullable: bool, lens: &[usize], pairs: bool) -> Vec<Col> {
    let mut out = vec![];
    let big = |i: usize| {
        if p.is_float() {
            if p == PType::F64 { V::f64(std::f64::consts::PI * (i as f64 + 1.0)) } else { V::f32(std::f32::consts::E * (i as f32 + 1.0)) }
        } else {
            V::of_int(p, if i % 2 == 0 { imax(p) - i as i128 } else { imin(p) })
        }
    };
    let base: Vec<Box<dyn Fn(usize) -> V>> = if p == PType::F64 {
        vec![Box::new(|i| V::f64((i % 7) as f64 * 0.5)), Box::new(|i| V::f64(1.0 + i as f64 * 1e-9))]
    } else if p == PType::F32 {
        vec![Box::new(|i| V::f32((i % 7) as f32 * 0.5))]
    } else {
        let m = imax(p);
        vec![
            Box::new(move |i| V::of_int(p, (i % 7) as i128)),
            Box::new(move |i| V::of_int(p, (i as i128 * 2).min(m))),
            Box::new(move |i| V::of_int(p, ((i / 300) * 8) as i128 % 100)),
        ]
    };
    for &n in lens {
        for b in &base {
            let h: Vec<usize> = hot(n).into_iter().filter(|i| *i < n).collect();
            let mut subsets: Vec<Vec<usize>> = vec![vec![]];
            for (k, i) in h.iter().enumerate() {
                subsets.push(vec![*i]);
                if pairs {
                    for j in &h[k + 1..] {
                        subsets.push(vec![*i, *j]);
                    }
                }
            }
            subsets.push(h.clone());
            for s in subsets {
                let exc: Vec<(usize, V)> = s.iter().enumerate().map(|(k, i)| (*i, big(k))).collect();
                out.push(pattern(prim(p, nullable), n, b, &exc));
                if nullable && !s.is_empty() {
                    let nul: Vec<(usize, V)> = s.iter().map(|i| (*i, V::Null)).collect();
                    out.push(pattern(prim(p, true), n, b, &nul));
                    let mix: Vec<(usize, V)> =
                        s.iter().enumerate().map(|(k, i)| (*i, if k % 2 == 0 { V::Null } else { big(k) })).collect();
                    out.push(pattern(prim(p, true), n, b, &mix));
                }
            }
            if nullable {
                out.push(pattern(prim(p, true), n, |_| V::Null, &[]));
                out.push(pattern(prim(p, true), n, |i| if i < 1024 { V::Null } else { b(i) }, &[]));
                out.push(pattern(prim(p, true), n, |i| if i >= 1024 { V::Null } else { b(i) }, &[]));
            }
        }
    }
    out
}

/// Columns of many blocks: exceptions and nulls throughout, wide gaps between the values, runs, and more elements
/// than a 16-bit position or code can name.
pub fn far_cols(ps: &[PType], full: bool) -> Vec<Col> {
    let mut out = vec![];
    for n in [false, true] {
        let gaps = |len: usize, f: &dyn Fn(usize) -> V| -> Vec<V> { (0..len).map(|i| if n && i % 5 == 3 { V::Null } else { f(i) }).collect() };
        for &p in ps {
            let d = prim(p, n);
            let mut add = |len: usize, f: &dyn Fn(usize) -> V| out.push(Col::new(d.clone(), gaps(len, f)));
            if p.is_float() {
                add(4100, &|i| if p == PType::F64 { V::f64(if i % 997 == 5 { i as f64 / 3.0 } else { (i % 7) as f64 * 0.25 }) } else { V::f32((i % 7) as f32 * 0.25) });
                continue;
            }
            let w = p.bit_width() as u32;
            let hi = imax(p);
            add(4100, &|i| V::of_int(p, if i % 997 == 5 { hi - (i / 997) as i128 } else { (i % 7) as i128 }));
            let k = w / 2 + 1;
            add(4100, &|i| V::of_int(p, (((i % 5) as i128) << k).min((hi >> k) << k)));
            add(4100, &|i| V::of_int(p, ((i / 300) as i128).min(hi)));
            if w >= 32 {
                add(66_000, &|i| V::of_int(p, i as i128));
                if full {
                    add(66_000, &|i| V::of_int(p, (i / 66) as i128));
                    add(300, &|i| V::of_int(p, i as i128 * 7));
                }
            }
        }
        let d = DType::Utf8(nn(n));
        out.push(Col::new(d, gaps(4100, &|i| V::S(format!("{}-{:04}", "ab".repeat(i % 9), i / 2).into_bytes()))));
        let d = DType::Bool(nn(n));
        out.push(Col::new(d.clone(), gaps(4100, &|i| V::B(i % 700 < 400))));
        out.push(Col::new(d, gaps(66_000, &|i| V::B(i % 3 == 0))));
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Encoders

pub type Enc = (String, Result<Array, String>);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub enum Rich {
    /// one representative per encoding
    Core,
    /// plus parameter variations
    More,
    /// plus nestings of encodings in encodings
    Full,
}

fn ve<T>(r: VortexResult<T>) -> Result<T, String> {
    r.map_err(|e| format!("{e}").lines().next().unwrap_or("").to_string())
}

pub struct Out {
    pub v: Vec<Enc>,
}
impl Out {
    fn add(&mut self, name: impl Into<String>, f: impl FnOnce() -> VortexResult<Array>) {
        self.v.push((name.into(), attempt(|| ve(f()))));
    }
}

pub fn chunk_cuts(n: usize) -> Vec<Vec<usize>> {
    // chunk boundaries as cumulative ends; every split into 1..=3 chunks, empty ones included
    let mut out = vec![vec![n]];
    for i in 0..=n {
        out.push(vec![i, n]);
        for j in i..=n {
            out.push(vec![i, j, n]);
        }
    }
    out
}
pub fn few_cuts(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![n / 2, n], vec![0, n], vec![n, n], vec![0, n / 2, n / 2, n]];
    if n >= 2 {
        v.push(vec![1, n - 1, n]);
        v.push((1..=n).collect());
    }
    v.sort();
    v.dedup();
    v
}
pub fn chunked_with(c: &Col, ends: &[usize], mut f: impl FnMut(usize, &Col) -> VortexResult<Array>) -> VortexResult<Array> {
    let mut chunks = vec![];
    let mut s = 0;
    for (k, e) in ends.iter().enumerate() {
        chunks.push(f(k, &c.slice(s, *e))?);
        s = *e;
    }
    Ok(ChunkedArray::try_new(chunks, c.dtype.clone())?.into_array())
}

pub fn dict(a: &Array) -> VortexResult<Array> {
    use vortex_dict::*;
    Ok(match a.dtype() {
        DType::Primitive(..) => {
            let (codes, values) = dict_encode_primitive(&PrimitiveArray::try_from(a.clone())?);
            DictArray::try_new(codes.into_array(), values.into_array())?.into_array()
        }
        _ => {
            if let Ok(vb) = VarBinArray::try_from(a.clone()) {
                let (codes, values) = dict_encode_varbin(&vb);
                DictArray::try_new(codes.into_array(), values.into_array())?.into_array()
            } else {
                let (codes, values) = dict_encode_varbinview(&VarBinViewArray::try_from(a.clone())?);
                DictArray::try_new(codes.into_array(), values.into_array())?.into_array()
            }
        }
    })
}

pub fn bitpack(a: Array, w: u8) -> VortexResult<Array> {
    Ok(vortex_fastlanes::BitPackedArray::encode(&a, w)?.into_array())
}
pub fn best_bitpack(a: Array) -> VortexResult<Array> {
    let w = vortex_fastlanes::find_best_bit_width(&PrimitiveArray::try_from(a.clone())?)?;
    bitpack(a, w)
}
pub fn for_(a: Array) -> VortexResult<Array> {
    vortex_fastlanes::for_compress(&PrimitiveArray::try_from(a)?)
}

/// values that are not the fill, at their positions
pub fn sparse_parts(c: &Col, fill: &V) -> (Vec<u64>, Col) {
    let mut idx = vec![];
    let mut vals = vec![];
    for (i, v) in c.vals.iter().enumerate() {
        if v != fill {
            idx.push(i as u64);
            vals.push(v.clone());
        }
    }
    (idx, Col::new(c.dtype.clone(), vals))
}

fn u64s(v: &[u64]) -> Array {
    PrimitiveArray::from(v.to_vec()).into_array()
}
fn uints(v: &[u64], p: PType) -> Array {
    let c = Col::new(prim(p, false), v.iter().map(|x| V::of_int(p, *x as i128)).collect());
    plain(&c)
}

pub fn sparse(c: &Col, fill: &V) -> VortexResult<Array> {
    let (idx, vals) = sparse_parts(c, fill);
    Ok(SparseArray::try_new(u64s(&idx), plain(&vals), c.len(), scalar_of(fill, &c.dtype).value().clone())?.into_array())
}

pub fn datetime_parts(a: Array) -> VortexResult<Array> {
    use vortex_datetime_parts::*;
    let dtype = a.dtype().clone();
    let t = TemporalArray::try_from(a)?;
    let TemporalParts { days, seconds, subseconds } = split_temporal(t)?;
    Ok(DateTimePartsArray::try_new(dtype, days, seconds, subseconds)?.into_array())
}

/// Every encoding of a column. Names are stable; parameters are in parentheses.
pub fn encodings(c: &Col, rich: Rich) -> Vec<Enc> {
    let mut o = Out { v: vec![] };
    let more = rich >= Rich::More;
    let full = rich >= Rich::Full;
    let n = c.len();
    let p0 = || plain(c);
    let all_eq = n > 0 && c.vals.iter().all(|v| v == &c.vals[0]);

    // plain
    match &c.dtype {
        DType::Utf8(_) | DType::Binary(_) => {
            o.add("varbinview", || Ok(plain(c)));
            o.add("varbin", || Ok(varbin(c).into_array()));
            if more {
                for op in [PType::U32, PType::I64] {
                    o.add(format!("varbin({op})"), || varbin_offsets(c, op));
                }
                o.add("varbin(gap)", || varbin_gap(c));
                o.add("varbinview(2buf)", || varbinview_two(c));
            }
        }
        DType::Null => o.add("null", || Ok(p0())),
        DType::Struct(..) => {
            o.add("struct", || Ok(p0()));
            if more && c.nullable() {
                o.add("struct(explicit)", || Ok(plain_with(c, Fill::Zero, validity_array(c))));
            }
        }
        DType::Extension(..) => {
            o.add("ext", || Ok(p0()));
        }
        _ => {
            o.add("plain", || Ok(p0()));
            if c.nullable() && (more || c.has_nulls()) {
                o.add("plain(garbage)", || Ok(plain_with(c, Fill::Garbage, validity_of(c))));
            }
            if more && c.nullable() {
                o.add("plain(explicit)", || Ok(plain_with(c, Fill::Garbage, validity_array(c))));
                if full && c.has_nulls() {
                    o.add("plain(encvalidity)", || {
                        let m: Vec<V> = c.vals.iter().map(|v| V::B(!v.is_null())).collect();
                        let mc = Col::new(DType::Bool(nn(false)), m);
                        let ByteB(a) = bytebool(&mc)?;
                        Ok(plain_with(c, Fill::Garbage, Validity::Array(a)))
                    });
                }
            }
        }
    }

    // generic wrappers
    // constants of these types have no canonical form ("Unsupported scalar type"): refused
    let const_ok = !matches!(c.dtype, DType::Null | DType::Struct(..) | DType::Extension(..));
    if all_eq && const_ok {
        o.add("constant", || Ok(ConstantArray::new(scalar_of(&c.vals[0], &c.dtype), n).into_array()));
    }
    if n == 0 && more && c.dtype != DType::Null {
        // an empty constant still has a value
        if const_ok {
            o.add("constant(empty)", || Ok(ConstantArray::new(scalar_of(&default_v(&c.dtype), &c.dtype), 0).into_array()));
        }
        o.add("chunked(none)", || Ok(ChunkedArray::try_new(vec![], c.dtype.clone())?.into_array()));
    }
    {
        let cuts = if more { few_cuts(n) } else { vec![vec![n / 2, n]] };
        for k in cuts {
            o.add(format!("chunked({k:?})"), || chunked_with(c, &k, |_, c| Ok(plain(c))));
        }
        if full {
            o.add("chunked(mixed)", || {
                chunked_with(c, &[n / 2, n / 2, n], |k, c| {
                    let es: Vec<Enc> = encodings(c, Rich::Core).into_iter().filter(|e| e.1.is_ok() && !e.0.starts_with("chunked")).collect();
                    Ok(es[(k * 2 + 1) % es.len()].1.clone().unwrap())
                })
            });
            o.add("chunked(nested)", || {
                chunked_with(c, &[n / 2, n], |_, c| {
                    let m = c.len() / 2;
                    chunked_with(c, &[m, c.len()], |_, c| Ok(plain(c)))
                })
            });
        }
    }
    // sparse arrays of strings have no canonical form (refused with an error)
    let sparse_ok = matches!(c.dtype, DType::Bool(_) | DType::Primitive(..));
    if sparse_ok {
        if c.nullable() {
            o.add("sparse(null)", || sparse(c, &V::Null));
        }
        if more || !c.nullable() {
            let fill = c.vals.iter().find(|v| !v.is_null()).cloned();
            if let Some(f) = fill {
                o.add("sparse(first)", || sparse(c, &f));
            }
            if full {
                let f = if let DType::Primitive(p, _) = &c.dtype { Some(V::P(*p, 0)) } else { None };
                if let Some(f) = f {
                    o.add("sparse(zero)", || sparse(c, &f));
                }
            }
        }
        if full && n > 0 {
            let f = if c.nullable() { V::Null } else { c.vals[0].clone() };
            let (idx, vals) = sparse_parts(c, &f);
            let sv = scalar_of(&f, &c.dtype).value().clone();
            o.add("sparse(idx=for)", || {
                Ok(SparseArray::try_new(for_(u64s(&idx))?, plain(&vals), n, sv.clone())?.into_array())
            });
            o.add("sparse(idx=bitpacked)", || {
                Ok(SparseArray::try_new(bitpack(u64s(&idx), 12)?, plain(&vals), n, sv.clone())?.into_array())
            });
            o.add("sparse(vals=chunked)", || {
                let v = chunked_with(&vals, &[vals.len() / 2, vals.len()], |_, c| Ok(plain(c)))?;
                Ok(SparseArray::try_new(u64s(&idx), v, n, sv.clone())?.into_array())
            });
        }
    }

    match &c.dtype {
        DType::Primitive(p, _) => prim_encodings(c, *p, rich, &mut o),
        DType::Bool(_) => {
            o.add("bytebool", || bytebool(c).map(|b| b.0));
            o.add("runendbool", || runend_bool(c, Fill::Zero, PType::U64));
            if more {
                o.add("runendbool(u16)", || runend_bool(c, Fill::Garbage, PType::U16));
            }
            if full {
                o.add("runendbool(bitpacked)", || {
                    let (ends, start) = vortex_runend_bool::compress::runend_bool_encode(&bool_with(c, Fill::Zero, validity_of(c)));
                    Ok(vortex_runend_bool::RunEndBoolArray::try_new(bitpack(ends.into_array(), 13)?, start, validity_of(c))?.into_array())
                });
            }
            if !c.nullable() {
                o.add("roaringbool", || vortex_roaring::RoaringBoolArray::encode(p0()));
            }
            if more {
                o.add("bool(sliced)", || {
                    // a bit buffer that starts mid-byte
                    let mut v = vec![V::B(true), V::B(false), V::B(true)];
                    v.extend(c.vals.iter().cloned());
                    v.extend(vec![V::B(true); 6]);
                    let b = plain(&Col::new(c.dtype.clone(), v));
                    vortex::compute::slice(&b, 3, 3 + n)
                });
            }
        }
        DType::Utf8(_) | DType::Binary(_) => {
            o.add("dict(varbinview)", || dict(&p0()));
            o.add("fsst(varbin)", || fsst(&varbin(c).into_array()));
            if more {
                o.add("dict(varbin)", || dict(&varbin(c).into_array()));
                o.add("fsst(varbinview)", || fsst(&p0()));
                o.add("dict(codes=bitpacked)", || dict_codes_bp(&p0()));
            }
            if full {
                o.add("fsst(shared)", || {
                    let mut v = c.vals.clone();
                    v.push(V::S(b"zzzzzzzzzzzzzzzzqq".to_vec()));
                    let train = Col::new(c.dtype.clone(), v);
                    let comp = vortex_fsst::fsst_train_compressor(&varbin(&train).into_array())?;
                    Ok(vortex_fsst::fsst_compress(&varbin(c).into_array(), &comp)?.into_array())
                });
                o.add("dict(values=fsst)", || {
                    let d = vortex_dict::DictArray::try_from(dict(&varbin(c).into_array())?)?;
                    let v = fsst(&d.values())?;
                    Ok(vortex_dict::DictArray::try_new(d.codes(), v)?.into_array())
                });
            }
        }
        DType::Struct(st, _) => {
            if more {
                for alt in 1..=if full { 4 } else { 2 } {
                    o.add(format!("struct(enc{alt})"), || {
                        let mut kids = vec![];
                        for k in 0..st.names().len() {
                            let d = st.dtypes()[k].clone();
                            let kc = Col::new(
                                d.clone(),
                                c.vals.iter().map(|v| if let V::Struct(f) = v { f[k].clone() } else { default_v(&d) }).collect(),
                            );
                            let es: Vec<Enc> = encodings(&kc, Rich::Core).into_iter().filter(|e| e.1.is_ok()).collect();
                            kids.push(es[(alt + k) % es.len()].1.clone().unwrap());
                        }
                        Ok(StructArray::try_new(st.names().clone(), kids, n, validity_of(c))?.into_array())
                    });
                }
            }
        }
        DType::Extension(ext, nu) => {
            let p = ext_ptype(c);
            let sc = Col::new(DType::Primitive(p, *nu), c.vals.clone());
            if ext_unit(c) != Some(TimeUnit::D) {
                o.add("datetimeparts", || datetime_parts(p0()));
                if full {
                    o.add("datetimeparts(enc)", || {
                        use vortex_datetime_parts::*;
                        let t = TemporalArray::try_from(p0())?;
                        let TemporalParts { days, seconds, subseconds } = split_temporal(t)?;
                        Ok(DateTimePartsArray::try_new(c.dtype.clone(), for_(days)?, for_(seconds)?, dict(&subseconds)?)?.into_array())
                    });
                }
            }
            if more {
                for (nm, a) in encodings(&sc, if full { Rich::More } else { Rich::Core }) {
                    if nm != "plain" {
                        if let Ok(a) = a {
                            o.add(format!("ext<{nm}>"), || Ok(ExtensionArray::new(ext.clone(), a).into_array()));
                        }
                    }
                }
            }
        }
        _ => {}
    }
    o.v
}

/// The encoders fed with a slice of a longer array: their input has buffer offsets, and neighbours (nulls, extremes)
/// that must not leak into the result.
pub fn encodings_of_slices(c: &Col) -> Vec<Enc> {
    let mut o = Out { v: vec![] };
    let n = c.len();
    let d = default_v(&c.dtype);
    let rot = c.vals.last().cloned().unwrap_or(d.clone());
    let odd = if c.nullable() { V::Null } else { rot.clone() };
    let mut vals = vec![rot.clone(), odd, d.clone()];
    vals.extend(c.vals.iter().cloned());
    vals.extend([rot.clone(), c.vals.first().cloned().unwrap_or(d.clone()), d, rot]);
    let long = Col::new(c.dtype.clone(), vals);
    let cut = |a: Array| vortex::compute::slice(&a, 3, 3 + n);
    let srcs: Vec<(&str, Array)> = match &c.dtype {
        DType::Utf8(_) | DType::Binary(_) => vec![("varbinview", plain(&long)), ("varbin", varbin(&long).into_array())],
        DType::Primitive(..) | DType::Bool(_) if c.nullable() => {
            vec![("plain", plain_with(&long, Fill::Garbage, validity_of(&long))), ("zero", plain_with(&long, Fill::Zero, validity_array(&long)))]
        }
        DType::Primitive(..) | DType::Bool(_) | DType::Extension(..) => vec![("plain", plain(&long))],
        _ => vec![],
    };
    for (s, src) in srcs {
        let Ok(a) = cut(src) else { continue };
        let mut add = |nm: &str, f: &dyn Fn(Array) -> VortexResult<Array>| o.add(format!("{nm}(of slice:{s})"), || f(a.clone()));
        match &c.dtype {
            DType::Utf8(_) | DType::Binary(_) => {
                add("dict", &|a| dict(&a));
                add("fsst", &|a| fsst(&a));
            }
            DType::Bool(_) => {
                add("runendbool", &|a| {
                    let b = BoolArray::try_from(a)?;
                    let (ends, start) = vortex_runend_bool::compress::runend_bool_encode(&b);
                    Ok(vortex_runend_bool::RunEndBoolArray::try_new(ends.into_array(), start, b.validity())?.into_array())
                });
                if !c.nullable() {
                    add("roaringbool", &vortex_roaring::RoaringBoolArray::encode);
                }
            }
            DType::Extension(..) => {
                if ext_unit(c) != Some(TimeUnit::D) {
                    add("datetimeparts", &datetime_parts);
                }
            }
            DType::Primitive(p, _) => {
                let prim = |a: &Array| PrimitiveArray::try_from(a.clone());
                add("dict", &|a| dict(&a));
                add("runend", &|a| Ok(vortex_runend::RunEndArray::encode(a)?.into_array()));
                if p.is_int() {
                    add("for", &for_);
                    add("delta", &|a| Ok(vortex_fastlanes::DeltaArray::try_from_primitive_array(&prim(&a)?)?.into_array()));
                    if p.is_signed_int() {
                        add("zigzag", &|a| vortex_zigzag::ZigZagArray::encode(&a));
                    } else {
                        add("bitpacked:best", &best_bitpack);
                        add("bitpacked:3", &|a| bitpack(a, 3));
                        if !c.nullable() && c.vals.windows(2).all(|w| w[0].int() < w[1].int()) {
                            add("roaringint", &vortex_roaring::RoaringIntArray::encode);
                        }
                    }
                }
                if matches!(p, PType::F32 | PType::F64) {
                    add("alp", &vortex_alp::ALPArray::encode);
                    if n > 0 {
                        add("alprd", &|a| {
                            let a = prim(&a)?;
                            Ok(if *p == PType::F64 {
                                vortex_alp::RDEncoder::new(a.maybe_null_slice::<f64>()).encode(&a).into_array()
                            } else {
                                vortex_alp::RDEncoder::new(a.maybe_null_slice::<f32>()).encode(&a).into_array()
                            })
                        });
                    }
                }
            }
            _ => {}
        }
    }
    o.v
}

pub fn ext_unit(c: &Col) -> Option<TimeUnit> {
    TemporalArray::try_from(plain(&Col::new(c.dtype.clone(), vec![]))).ok().map(|t| t.temporal_metadata().time_unit())
}

pub fn dict_codes_bp(a: &Array) -> VortexResult<Array> {
    let d = vortex_dict::DictArray::try_from(dict(a)?)?;
    let codes = d.codes();
    Ok(vortex_dict::DictArray::try_new(bitpack(codes, 3)?, d.values())?.into_array())
}

pub fn fsst(a: &Array) -> VortexResult<Array> {
    let comp = vortex_fsst::fsst_train_compressor(a)?;
    Ok(vortex_fsst::fsst_compress(a, &comp)?.into_array())
}

pub struct ByteB(pub Array);
pub fn bytebool(c: &Col) -> VortexResult<ByteB> {
    let v: Vec<bool> = c.vals.iter().map(|v| matches!(v, V::B(true))).collect();
    Ok(ByteB(vortex_bytebool::ByteBoolArray::try_from_vec(v, validity_of(c))?.into_array()))
}
pub fn runend_bool(c: &Col, fill: Fill, p: PType) -> VortexResult<Array> {
    let (ends, start) = vortex_runend_bool::compress::runend_bool_encode(&bool_with(c, fill, validity_of(c)));
    let ends: Vec<u64> = ends.maybe_null_slice::<u64>().to_vec();
    Ok(vortex_runend_bool::RunEndBoolArray::try_new(uints(&ends, p), start, validity_of(c))?.into_array())
}

pub fn varbin_offsets(c: &Col, p: PType) -> VortexResult<Array> {
    let mut data = vec![];
    let mut offs = vec![0u64];
    for v in &c.vals {
        if let V::S(s) = v {
            data.extend_from_slice(s);
        }
        offs.push(data.len() as u64);
    }
    Ok(VarBinArray::try_new(uints(&offs, p), PrimitiveArray::from(data).into_array(), c.dtype.clone(), validity_of(c))?.into_array())
}
/// offsets that do not start at zero, and bytes under nulls
pub fn varbin_gap(c: &Col) -> VortexResult<Array> {
    let mut data = b"??".to_vec();
    let mut offs = vec![2u64];
    for v in &c.vals {
        match v {
            V::S(s) => data.extend_from_slice(s),
            _ => data.extend_from_slice(b"nul"),
        }
        offs.push(data.len() as u64);
    }
    data.extend_from_slice(b"tail");
    Ok(VarBinArray::try_new(uints(&offs, PType::I32), PrimitiveArray::from(data).into_array(), c.dtype.clone(), validity_of(c))?.into_array())
}
/// views into two data buffers
pub fn varbinview_two(c: &Col) -> VortexResult<Array> {
    let m = c.len() / 2;
    let ch = chunked_with(c, &[m, c.len()], |_, c| Ok(plain(c)))?;
    Ok(ch.into_varbinview()?.into_array())
}

fn alprd(c: &Col, p: PType, fill: Fill, train: &[V]) -> VortexResult<Array> {
    use vortex_alp::RDEncoder;
    let a = prim_with(c, p, fill, validity_of(c));
    Ok(if p == PType::F64 {
        let s: Vec<f64> = train.iter().map(|v| if let V::P(_, b) = v { f64::from_bits(*b) } else { 0.0 }).collect();
        RDEncoder::new(&s).encode(&a).into_array()
    } else {
        let s: Vec<f32> = train.iter().map(|v| if let V::P(_, b) = v { f32::from_bits(*b as u32) } else { 0.0 }).collect();
        RDEncoder::new(&s).encode(&a).into_array()
    })
}

pub fn runend_with(c: &Col, fill: Fill, ends: impl FnOnce(&[u64]) -> VortexResult<Array>, vals: impl FnOnce(Array) -> VortexResult<Array>) -> VortexResult<Array> {
    use vortex_runend::RunEndArray;
    let r = RunEndArray::encode(plain_with(c, fill, validity_of(c)))?;
    let e = r.ends().into_primitive()?;
    let e = observe(&e.into_array()).unwrap_or_else(|m| panic!("{m}"));
    let e: Vec<u64> = e.vals.iter().map(|v| v.int().unwrap() as u64).collect();
    Ok(RunEndArray::try_new(ends(&e)?, vals(r.values())?, r.validity())?.into_array())
}

fn prim_encodings(c: &Col, p: PType, rich: Rich, o: &mut Out) {
    let more = rich >= Rich::More;
    let full = rich >= Rich::Full;
    let n = c.len();
    let has_null = c.has_nulls();
    let p0 = || plain(c);
    let pg = || plain_with(c, Fill::Garbage, validity_of(c));
    let fills: &[(&str, Fill)] = if has_null && more { &[("", Fill::Zero), ("+g", Fill::Garbage)] } else { &[("", Fill::Zero)] };

    o.add("dict", || dict(&p0()));
    o.add("runend", || Ok(vortex_runend::RunEndArray::encode(p0())?.into_array()));
    if more {
        o.add("runend(garbage)", || Ok(vortex_runend::RunEndArray::encode(pg())?.into_array()));
        o.add("runend(u16)", || runend_with(c, Fill::Zero, |e| Ok(uints(e, PType::U16)), Ok));
        o.add("dict(codes=bitpacked)", || dict_codes_bp(&p0()));
    }
    if full {
        o.add("runend(ends=bitpacked)", || runend_with(c, Fill::Zero, |e| bitpack(u64s(e), 2), Ok));
        o.add("runend(ends=bitpacked13)", || runend_with(c, Fill::Zero, |e| bitpack(u64s(e), 13), Ok));
        o.add("runend(ends=for)", || runend_with(c, Fill::Zero, |e| for_(u64s(e)), Ok));
        o.add("runend(vals=dict)", || runend_with(c, Fill::Zero, |e| Ok(u64s(e)), |v| dict(&v)));
        if n < 200 {
            o.add("runend(u8)", || runend_with(c, Fill::Zero, |e| Ok(uints(e, PType::U8)), Ok));
        }
    }
    if p.is_int() {
        for (s, f) in fills {
            let pf = || plain_with(c, *f, validity_of(c));
            o.add(format!("for{s}"), || for_(pf()));
            if p.is_unsigned_int() {
                let full_w = p.bit_width() as u8;
                let ws: Vec<u8> = if full {
                    vec![0, 1, 3, 7, (full_w / 2).max(8).min(full_w - 1), full_w - 1]
                } else if more {
                    vec![0, 3, 7]
                } else {
                    vec![3]
                };
                let mut ws = ws;
                ws.sort();
                ws.dedup();
                for w in ws {
                    o.add(format!("bitpacked({w}){s}"), || bitpack(pf(), w));
                }
                if more {
                    o.add(format!("bitpacked(best){s}"), || best_bitpack(pf()));
                }
            }
            if p.is_signed_int() {
                o.add(format!("zigzag{s}"), || vortex_zigzag::ZigZagArray::encode(&pf()));
            }
        }
        o.add("delta", || Ok(vortex_fastlanes::DeltaArray::try_from_primitive_array(&PrimitiveArray::try_from(p0())?)?.into_array()));
        if !c.nullable() && p.is_unsigned_int() {
            let sorted = c.vals.windows(2).all(|w| w[0].int() < w[1].int());
            if sorted {
                o.add("roaringint", || vortex_roaring::RoaringIntArray::encode(p0()));
            }
        }
        if full {
            o.add("for<bitpacked>", || {
                let f = vortex_fastlanes::FoRArray::try_from(for_(p0())?)?;
                let e = best_bitpack(f.encoded())?;
                Ok(vortex_fastlanes::FoRArray::try_new(e, f.owned_reference_scalar(), f.shift())?.into_array())
            });
            o.add("for<dict>", || {
                let f = vortex_fastlanes::FoRArray::try_from(for_(p0())?)?;
                let e = dict(&f.encoded())?;
                Ok(vortex_fastlanes::FoRArray::try_new(e, f.owned_reference_scalar(), f.shift())?.into_array())
            });
            if p.is_signed_int() {
                o.add("zigzag<bitpacked>", || {
                    let z = vortex_zigzag::ZigZagArray::try_from(vortex_zigzag::ZigZagArray::encode(&p0())?)?;
                    Ok(vortex_zigzag::ZigZagArray::try_new(best_bitpack(z.encoded())?)?.into_array())
                });
                o.add("zigzag<runend>", || {
                    let z = vortex_zigzag::ZigZagArray::try_from(vortex_zigzag::ZigZagArray::encode(&p0())?)?;
                    let r = vortex_runend::RunEndArray::encode(z.encoded())?;
                    Ok(vortex_zigzag::ZigZagArray::try_new(r.into_array())?.into_array())
                });
            }
        }
    }
    if matches!(p, PType::F32 | PType::F64) {
        for (s, f) in fills {
            let pf = || plain_with(c, *f, validity_of(c));
            o.add(format!("alp{s}"), || vortex_alp::ALPArray::encode(pf()));
            if n > 0 {
                o.add(format!("alprd{s}"), || alprd(c, p, *f, &c.vals));
                if more {
                    o.add(format!("alprd(first){s}"), || alprd(c, p, *f, &c.vals[..1]));
                }
            }
        }
        if full {
            o.add("alp<for>", || {
                let a = vortex_alp::ALPArray::try_from(vortex_alp::ALPArray::encode(p0())?)?;
                Ok(vortex_alp::ALPArray::try_new(for_(a.encoded())?, a.exponents(), a.patches())?.into_array())
            });
        }
    }
}
