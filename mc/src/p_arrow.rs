//! C23: conversion from and to Arrow, of arrays, types, schemas and record batches.
use std::sync::Arc;

use arrow_array::builder::{GenericByteBuilder, GenericByteViewBuilder};
use arrow_array::types::*;
use arrow_array::{Array as _, ArrayRef, BooleanArray, NullArray as ANull, PrimitiveArray as APrim, RecordBatch, RecordBatchOptions, StructArray as AStruct};
use arrow_buffer::{BooleanBuffer, NullBuffer, ScalarBuffer};
use arrow_schema::{DataType, Field, Fields, Schema, TimeUnit as AUnit};
use rayon::prelude::*;
use vortex::array::*;
use vortex::arrow::{infer_data_type, infer_schema, FromArrowArray, FromArrowType};
use vortex::compute::{filter, slice, take};
use vortex::{Array, ArrayDType, IntoArray, IntoCanonical};
use vortex_dtype::{DType, PType};

pub use crate::arrow_read::read_arrow;
use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_core::{scalar_is, small};
use crate::report::*;

/// An Arrow type, the type it must become, and the values its columns are drawn from.
#[derive(Clone)]
pub struct AFam {
    pub at: DataType,
    pub fam: Fam,
}

fn afams(n: bool, full: bool) -> Vec<AFam> {
    let mut v = vec![];
    let mut add = |at: DataType, fam: Fam| v.push(AFam { at, fam });
    for p in INTS {
        let at = match p {
            PType::U8 => DataType::UInt8,
            PType::U16 => DataType::UInt16,
            PType::U32 => DataType::UInt32,
            PType::U64 => DataType::UInt64,
            PType::I8 => DataType::Int8,
            PType::I16 => DataType::Int16,
            PType::I32 => DataType::Int32,
            _ => DataType::Int64,
        };
        add(at.clone(), int_ext(p, n));
        if full {
            add(at, int_mid(p, n));
        }
    }
    for f in float_fams(n) {
        let at = match &f.dtype {
            DType::Primitive(PType::F16, _) => DataType::Float16,
            DType::Primitive(PType::F32, _) => DataType::Float32,
            _ => DataType::Float64,
        };
        add(at, f);
    }
    add(DataType::Boolean, bool_fam(n));
    for at in [DataType::Utf8, DataType::LargeUtf8, DataType::Utf8View] {
        add(at.clone(), utf8_fam(n));
        if full {
            add(at, utf8_fam2(n));
        }
    }
    for at in [DataType::Binary, DataType::LargeBinary, DataType::BinaryView] {
        add(at, bin_fam(n));
    }
    use vortex_datetime_dtype::TimeUnit as U;
    for (u, a) in [(U::S, AUnit::Second), (U::Ms, AUnit::Millisecond), (U::Us, AUnit::Microsecond), (U::Ns, AUnit::Nanosecond)] {
        for tz in [None, Some("UTC"), Some("+02:00"), Some("America/New_York")] {
            if !full && u != U::Us && tz == Some("+02:00") {
                continue;
            }
            add(
                DataType::Timestamp(a, tz.map(Into::into)),
                temporal("ts", PType::I64, &[0, -1, i64::MAX], n, u, tz, 0),
            );
        }
    }
    add(DataType::Date32, temporal("date", PType::I32, &[0, -1, 19_000], n, U::D, None, 1));
    add(DataType::Date64, temporal("date", PType::I64, &[0, -86_400_000, i64::MAX], n, U::Ms, None, 1));
    add(DataType::Time32(AUnit::Second), temporal("time", PType::I32, &[0, 86_399, 60], n, U::S, None, 2));
    add(DataType::Time32(AUnit::Millisecond), temporal("time", PType::I32, &[0, 86_399_999, 60], n, U::Ms, None, 2));
    add(DataType::Time64(AUnit::Microsecond), temporal("time", PType::I64, &[0, 86_399_999_999, 60], n, U::Us, None, 2));
    add(DataType::Time64(AUnit::Nanosecond), temporal("time", PType::I64, &[0, 86_399_999_999_999, 60], n, U::Ns, None, 2));
    let st = struct_fam(n);
    add(DataType::Struct(struct_fields()), st);
    v
}
fn struct_fields() -> Fields {
    Fields::from(vec![Field::new("a", DataType::Int32, true), Field::new("b", DataType::Utf8, false)])
}

/// How the Arrow array lies in memory.
#[derive(Clone, Copy, Debug)]
struct Lay {
    /// elements before and after the window in the value buffers
    pre: usize,
    post: usize,
    /// elements before the window in the null mask
    npre: usize,
    /// a null mask although nothing is null
    mask: bool,
    /// slice the finished array once more
    extra: usize,
}

fn mask(c: &Col, l: Lay) -> Option<NullBuffer> {
    if !c.has_nulls() && !l.mask {
        return None;
    }
    let mut bits = vec![];
    for i in 0..l.npre {
        bits.push(i % 2 == 0);
    }
    bits.extend(c.vals.iter().map(|v| !v.is_null()));
    bits.extend([false, true, false]);
    Some(NullBuffer::new(BooleanBuffer::from(bits)).slice(l.npre, c.len()))
}

fn padded(c: &Col, l: Lay) -> Vec<V> {
    let pad = c.vals.iter().rev().find(|v| !v.is_null()).cloned().unwrap_or_else(|| default_v(&c.dtype));
    let mut v = vec![pad.clone(); l.pre];
    v.extend(c.vals.iter().enumerate().map(|(i, x)| if x.is_null() { if i % 2 == 0 { pad.clone() } else { default_v(&c.dtype) } } else { x.clone() }));
    v.extend(vec![pad; l.post]);
    v
}

fn prim_arrow<T: ArrowPrimitiveType>(c: &Col, l: Lay, conv: impl Fn(u64) -> T::Native, at: &DataType) -> ArrayRef {
    let vals: Vec<T::Native> = padded(c, l)
        .iter()
        .map(|v| match v {
            V::P(_, b) => conv(*b),
            _ => conv(0),
        })
        .collect();
    let sb = ScalarBuffer::from(vals).slice(l.pre, c.len());
    Arc::new(APrim::<T>::new(sb, mask(c, l)).with_data_type(at.clone()))
}

fn bytes_of(v: &V) -> &[u8] {
    match v {
        V::S(b) => b,
        _ => b"",
    }
}

fn build(at: &DataType, c: &Col, l: Lay) -> ArrayRef {
    let n = c.len();
    macro_rules! p {
        ($t:ty, $u:ty) => {
            prim_arrow::<$t>(c, l, |b| b as $u as _, at)
        };
    }
    fn bytes<T: ByteArrayType>(c: &Col, l: Lay, conv: impl Fn(&[u8]) -> Box<T::Native>) -> ArrayRef {
        let mut b = GenericByteBuilder::<T>::new();
        for v in padded(c, l) {
            b.append_value(AsRef::<T::Native>::as_ref(&*conv(bytes_of(&v))));
        }
        let a = b.finish().slice(l.pre, c.len());
        Arc::new(arrow_array::GenericByteArray::<T>::new(a.offsets().clone(), a.values().clone(), mask(c, l)))
    }
    fn views<T: ByteViewType>(c: &Col, l: Lay, conv: impl Fn(&[u8]) -> Box<T::Native>) -> ArrayRef {
        let mut b = GenericByteViewBuilder::<T>::new().with_fixed_block_size(24);
        for v in padded(c, l) {
            b.append_value(AsRef::<T::Native>::as_ref(&*conv(bytes_of(&v))));
        }
        let a = b.finish().slice(l.pre, c.len());
        Arc::new(arrow_array::GenericByteViewArray::<T>::new(a.views().clone(), a.data_buffers().to_vec(), mask(c, l)))
    }
    let st = |b: &[u8]| -> Box<str> { std::str::from_utf8(b).unwrap().into() };
    let bi = |b: &[u8]| -> Box<[u8]> { b.into() };
    match at {
        DataType::Null => Arc::new(ANull::new(n)),
        DataType::Boolean => {
            let bits: Vec<bool> = padded(c, l).iter().map(|v| *v == V::B(true)).collect();
            Arc::new(BooleanArray::new(BooleanBuffer::from(bits).slice(l.pre, n), mask(c, l)))
        }
        DataType::UInt8 => p!(UInt8Type, u8),
        DataType::UInt16 => p!(UInt16Type, u16),
        DataType::UInt32 => p!(UInt32Type, u32),
        DataType::UInt64 => p!(UInt64Type, u64),
        DataType::Int8 => p!(Int8Type, u8),
        DataType::Int16 => p!(Int16Type, u16),
        DataType::Int32 => p!(Int32Type, u32),
        DataType::Int64 => p!(Int64Type, u64),
        DataType::Float16 => prim_arrow::<Float16Type>(c, l, |b| half::f16::from_bits(b as u16), at),
        DataType::Float32 => prim_arrow::<Float32Type>(c, l, |b| f32::from_bits(b as u32), at),
        DataType::Float64 => prim_arrow::<Float64Type>(c, l, f64::from_bits, at),
        DataType::Utf8 => bytes::<Utf8Type>(c, l, st),
        DataType::LargeUtf8 => bytes::<LargeUtf8Type>(c, l, st),
        DataType::Utf8View => views::<StringViewType>(c, l, st),
        DataType::Binary => bytes::<BinaryType>(c, l, bi),
        DataType::LargeBinary => bytes::<LargeBinaryType>(c, l, bi),
        DataType::BinaryView => views::<BinaryViewType>(c, l, bi),
        DataType::Timestamp(AUnit::Second, _) => p!(TimestampSecondType, u64),
        DataType::Timestamp(AUnit::Millisecond, _) => p!(TimestampMillisecondType, u64),
        DataType::Timestamp(AUnit::Microsecond, _) => p!(TimestampMicrosecondType, u64),
        DataType::Timestamp(AUnit::Nanosecond, _) => p!(TimestampNanosecondType, u64),
        DataType::Date32 => p!(Date32Type, u32),
        DataType::Date64 => p!(Date64Type, u64),
        DataType::Time32(AUnit::Second) => p!(Time32SecondType, u32),
        DataType::Time32(_) => p!(Time32MillisecondType, u32),
        DataType::Time64(AUnit::Microsecond) => p!(Time64MicrosecondType, u64),
        DataType::Time64(_) => p!(Time64NanosecondType, u64),
        DataType::Struct(fs) => {
            let DType::Struct(sd, _) = &c.dtype else { panic!() };
            let kids: Vec<ArrayRef> = fs
                .iter()
                .enumerate()
                .map(|(k, f)| {
                    let kc = Col::new(
                        sd.dtypes()[k].clone(),
                        c.vals
                            .iter()
                            .enumerate()
                            .map(|(i, v)| match v {
                                V::Struct(x) => x[k].clone(),
                                // what lies under a null row
                                _ if f.is_nullable() && i % 2 == 0 => V::Null,
                                _ => default_v(&sd.dtypes()[k]),
                            })
                            .collect(),
                    );
                    build(f.data_type(), &kc, Lay { pre: l.pre + k, npre: l.npre + 2 * k, ..l })
                })
                .collect();
            Arc::new(AStruct::new(fs.clone(), kids, mask(c, l)))
        }
        _ => panic!("no builder for {at}"),
    }
}

/// The one Arrow type a column of the given type is exported as.
fn exported(at: &DataType) -> DataType {
    match at {
        DataType::Utf8 | DataType::LargeUtf8 => DataType::Utf8View,
        DataType::Binary | DataType::LargeBinary => DataType::BinaryView,
        DataType::Struct(fs) => DataType::Struct(
            fs.iter().map(|f| Field::new(f.name(), exported(f.data_type()), f.is_nullable())).collect::<Vec<_>>().into(),
        ),
        t => t.clone(),
    }
}

/// Export and compare type and contents.
fn exports(a: &Array, at: &DataType, want: &[V]) -> Result<ArrayRef, String> {
    let r = es(es(a.clone().into_canonical())?.into_arrow())?;
    let e = exported(at);
    if r.data_type() != &e {
        return Err(format!("exported as {} instead of {e}", r.data_type()));
    }
    if r.len() != want.len() {
        return Err(format!("exported with length {} instead of {}", r.len(), want.len()));
    }
    // Arrow's own validation of offsets, views, UTF-8 and child lengths
    // (Arrow's validation of boolean arrays expects the mask to have the values' bit offset, which its own
    // constructors do not ask for)
    if !r.data_type().to_string().contains("Boolean") {
        r.to_data().validate_full().map_err(|e| format!("Arrow rejects the exported array: {e}"))?;
    }
    if let Some(d) = diff_vals(&read_arrow(&r)?, want) {
        return Err(format!("exported: {d}"));
    }
    let nulls = want.iter().filter(|v| v.is_null()).count();
    if r.logical_null_count_() != nulls {
        return Err(format!("exported null count is {} instead of {nulls}", r.logical_null_count_()));
    }
    Ok(r)
}
trait NullCount {
    fn logical_null_count_(&self) -> usize;
}
impl NullCount for ArrayRef {
    fn logical_null_count_(&self) -> usize {
        self.logical_nulls().map_or(0, |n| n.null_count())
    }
}

fn one(ctx: &Ctx, f: &AFam, c: &Col, arr: &ArrayRef, nullable: bool, key: &str) {
    let k = |op: &str| format!("{op}|{}|{}|{key}", f.at, c.desc());
    let mut got = None;
    ctx.check(
        || k("import"),
        || {
            let a = Array::from_arrow(arr.clone(), nullable);
            if a.dtype() != &c.dtype {
                return Err(format!("imported as {} instead of {}", a.dtype(), c.dtype));
            }
            let d = DType::from_arrow(&Field::new("x", f.at.clone(), nullable));
            if d != c.dtype {
                return Err(format!("the field's type became {d} instead of {}", c.dtype));
            }
            same(&a, c)?;
            got = Some(a);
            Ok(())
        },
    );
    let Some(a) = got else { return };
    ctx.check(
        || k("elements"),
        || {
            for i in 0..c.len() {
                scalar_is(&a, c, i)?;
                if a.with_dyn(|x| x.is_valid(i)) == c.vals[i].is_null() {
                    return Err(format!("is_valid({i}) is wrong"));
                }
            }
            Ok(())
        },
    );
    ctx.check(|| k("export"), || {
        let r = exports(&a, &f.at, &c.vals)?;
        // and in again
        let b = Array::from_arrow(r, nullable);
        if b.dtype() != &c.dtype {
            return Err(format!("imported again as {} instead of {}", b.dtype(), c.dtype));
        }
        same(&b, c).map_err(|e| format!("imported again: {e}"))
    });
    let n = c.len();
    for i in 0..=n {
        for j in i..=n {
            if (i, j) == (0, n) {
                continue;
            }
            ctx.check(
                || k(&format!("slice {i}..{j}")),
                || {
                    let s = es(slice(&a, i, j))?;
                    let w = c.slice(i, j);
                    same(&s, &w)?;
                    exports(&s, &f.at, &w.vals).map(|_| ())
                },
            );
        }
    }
    if n > 1 {
        ctx.check(
            || k("take"),
            || {
                let s = es(take(&a, PrimitiveArray::from(vec![n as u64 - 1, 0, 0]).into_array()))?;
                let w = c.take(&[n - 1, 0, 0]);
                same(&s, &w)?;
                exports(&s, &f.at, &w.vals).map(|_| ())
            },
        );
        let m: Vec<bool> = (0..n).map(|i| i % 2 == 1).collect();
        ctx.check(
            || k("filter"),
            || {
                let s = es(filter(&a, BoolArray::from(m.clone())))?;
                let w = c.filter(&m);
                same(&s, &w)?;
                exports(&s, &f.at, &w.vals).map(|_| ())
            },
        );
    }
}

fn arrow_of(d: &DType, ext: &[(DType, DataType)]) -> Option<DataType> {
    Some(match d {
        DType::Null => DataType::Null,
        DType::Bool(_) => DataType::Boolean,
        DType::Utf8(_) => DataType::Utf8View,
        DType::Binary(_) => DataType::BinaryView,
        DType::Primitive(p, _) => match p {
            PType::U8 => DataType::UInt8,
            PType::U16 => DataType::UInt16,
            PType::U32 => DataType::UInt32,
            PType::U64 => DataType::UInt64,
            PType::I8 => DataType::Int8,
            PType::I16 => DataType::Int16,
            PType::I32 => DataType::Int32,
            PType::I64 => DataType::Int64,
            PType::F16 => DataType::Float16,
            PType::F32 => DataType::Float32,
            PType::F64 => DataType::Float64,
        },
        DType::Struct(s, _) => DataType::Struct(
            s.names()
                .iter()
                .zip(s.dtypes().iter())
                .map(|(n, d)| Some(Field::new(n.as_ref(), arrow_of(d, ext)?, d.is_nullable())))
                .collect::<Option<Vec<_>>>()?
                .into(),
        ),
        DType::Extension(..) => ext.iter().find(|(x, _)| x == d)?.1.clone(),
        _ => return None,
    })
}

fn ext_map() -> Vec<(DType, DataType)> {
    [false, true]
        .iter()
        .flat_map(|n| afams(*n, true))
        .filter(|f| matches!(f.fam.dtype, DType::Extension(..)))
        .map(|f| (f.fam.dtype, f.at))
        .collect()
}

pub fn c23(ctx: &Ctx) {
    let full = ctx.thorough;
    let lays: Vec<Lay> = [(0, 0, 0), (1, 1, 0), (0, 2, 3), (7, 0, 9), (9, 3, 7), (8, 1, 8)]
        .iter()
        .flat_map(|(pre, post, npre)| {
            [0usize, 1].iter().flat_map(move |extra| [false, true].iter().map(move |mask| Lay { pre: *pre, post: *post, npre: *npre, mask: *mask, extra: *extra }))
        })
        .collect();
    // 1. Arrow arrays: import, operate, export, import again
    let hi = if full { 4 } else { 3 };
    let mut nf = 0;
    for n in [false, true] {
        let fams = afams(n, full);
        nf += fams.len();
        fams.par_iter().for_each(|f| {
            small_cols(&f.fam, 0, hi).into_par_iter().for_each(|c| {
                for l in &lays {
                    let arr = if l.extra == 0 {
                        build(&f.at, &c, *l)
                    } else {
                        let mut w = c.vals.clone();
                        for _ in 0..3 {
                            w.insert(0, c.vals.last().cloned().unwrap_or_else(|| default_v(&c.dtype)));
                            w.push(c.vals.first().cloned().unwrap_or_else(|| default_v(&c.dtype)));
                        }
                        build(&f.at, &Col::new(c.dtype.clone(), w), *l).slice(3, c.len())
                    };
                    ctx.state();
                    one(ctx, f, &c, &arr, n, &format!("{l:?}"));
                }
            });
        });
    }
    for n in 0..4 {
        let c = Col::new(DType::Null, vec![V::Null; n]);
        let arr = build(&DataType::Null, &c, lays[0]);
        one(ctx, &AFam { at: DataType::Null, fam: null_fam() }, &c, &arr, true, "");
    }
    ctx.bound(format!("{nf} Arrow type x alphabet families, every column of length 0..={hi}, {} memory layouts (value and mask offsets, sliced, masks without nulls), each exported from every slice of the imported array", lays.len()));
    // long columns, bit offsets across bytes
    for n in [false, true] {
        let fams = [AFam { at: DataType::Boolean, fam: bool_fam(n) }, AFam { at: DataType::Int32, fam: int_ext(PType::I32, n) }, AFam { at: DataType::Utf8View, fam: utf8_fam(n) }, AFam { at: DataType::Utf8, fam: utf8_fam(n) }];
        fams.par_iter().for_each(|f| {
            for len in [7usize, 8, 9, 63, 64, 65, 130] {
                for k in 0..3 {
                    let a = f.fam.alpha.len();
                    let c = pattern(f.fam.dtype.clone(), len, |i| if n && (i * (k + 2)) % 7 == 3 { V::Null } else { f.fam.alpha[(i * (k + 1) + i / 3) % a].clone() }, &[]);
                    for pre in 0..10 {
                        for npre in [0, 1, 5, 9] {
                            let l = Lay { pre, post: 1, npre, mask: true, extra: 0 };
                            let arr = build(&f.at, &c, l);
                            ctx.state();
                            let key = || format!("long|{}|{}|{l:?}", f.at, c.desc());
                            ctx.check(key, || {
                                let a = Array::from_arrow(arr.clone(), n);
                                same(&a, &c)?;
                                for (i, j) in [(0, len), (1, len), (3, len - 1), (len - 1, len)] {
                                    let s = es(slice(&a, i, j))?;
                                    exports(&s, &f.at, &c.vals[i..j]).map_err(|e| format!("{i}..{j}: {e}"))?;
                                }
                                Ok(())
                            });
                        }
                    }
                }
            }
        });
    }
    ctx.bound("columns of up to 130 elements with every value bit offset 0..=9 and mask offsets 0, 1, 5, 9");

    // 2. any array to Arrow
    let ext = ext_map();
    let (lo, hi) = (0, if full { 4 } else { 3 });
    explore(ctx, small(full, lo, hi), if full { Rich::Full } else { Rich::More }, |s| {
        let Some(at) = arrow_of(&s.col.dtype, &ext) else { return };
        ctx.check(|| s.key("toarrow", ""), || exports(&s.arr, &at, &s.col.vals).map(|_| ()));
        ctx.check(
            || s.key("infer", ""),
            || {
                let t = es(infer_data_type(s.arr.dtype()))?;
                if t != at { Err(format!("inferred {t} instead of {at}")) } else { Ok(()) }
            },
        );
        let n = s.col.len();
        if n > 0 {
            ctx.check(
                || s.key("toarrow", "1.."),
                || exports(&es(slice(&s.arr, 1, n))?, &at, &s.col.vals[1..]).map(|_| ()),
            );
        }
    });
    ctx.bound(format!("every column of length {lo}..={hi} in every encoding, and its tail, exported"));

    // 3. tables: record batches and schemas, all lists of up to three columns
    let rep: Vec<(bool, AFam)> = [false, true]
        .iter()
        .flat_map(|n| afams(*n, false).into_iter().map(move |f| (*n, f)))
        .filter(|(_, f)| {
            full || matches!(f.at, DataType::UInt8 | DataType::Int64 | DataType::Boolean | DataType::Utf8 | DataType::Utf8View | DataType::Binary | DataType::Struct(_) | DataType::Date32)
                || matches!(&f.at, DataType::Timestamp(AUnit::Microsecond, Some(_)))
        })
        .collect();
    let names = [["a", "b", "c"], ["", "a.b", "\u{e9}"], ["x", "x", "x"]];
    let idx: Vec<usize> = (0..rep.len()).collect();
    let mut lists: Vec<Vec<usize>> = vec![vec![]];
    for k in 1..=2 {
        lists.extend(seqs(&idx, k));
    }
    for i in &idx {
        lists.push(vec![*i, (*i + 3) % rep.len(), (*i * 5 + 1) % rep.len()]);
    }
    lists.par_iter().for_each(|ls| {
        for (nm, names) in names.iter().enumerate() {
            for rows in [0usize, 1, 3] {
                let cols: Vec<Col> = ls
                    .iter()
                    .enumerate()
                    .map(|(k, i)| {
                        let (n, f) = &rep[*i];
                        Col::new(
                            f.fam.dtype.clone(),
                            (0..rows).map(|r| if *n && (r + k) % 3 == 1 { V::Null } else { f.fam.alpha[(r + k) % f.fam.alpha.len()].clone() }).collect(),
                        )
                    })
                    .collect();
                let fields: Vec<Field> = ls.iter().enumerate().map(|(k, i)| Field::new(names[k], rep[*i].1.at.clone(), rep[*i].0)).collect();
                let schema = Arc::new(Schema::new(fields));
                let arrays: Vec<ArrayRef> =
                    ls.iter().zip(&cols).enumerate().map(|(k, (i, c))| build(&rep[*i].1.at, c, Lay { pre: k, post: 1, npre: 2 * k, mask: k == 1, extra: 0 })).collect();
                let want = Col::new(
                    struct_dtype(&names[..ls.len()], cols.iter().map(|c| c.dtype.clone()).collect(), false),
                    (0..rows).map(|r| V::Struct(cols.iter().map(|c| c.vals[r].clone()).collect())).collect(),
                );
                ctx.state();
                let key = |op: &str| format!("{op}|{nm}|{ls:?}|{rows}");
                let Ok(rb) = RecordBatch::try_new_with_options(schema.clone(), arrays, &RecordBatchOptions::new().with_row_count(Some(rows))) else {
                    ctx.refuse("record batch (by Arrow)");
                    continue;
                };
                let es_ = exported(&DataType::Struct(schema.fields().clone()));
                ctx.check(
                    || key("batch"),
                    || {
                        let a = es(Array::try_from(rb.clone()))?;
                        same(&a, &want)?;
                        let d = DType::from_arrow(schema.clone());
                        if &d != a.dtype() {
                            return Err(format!("the schema's type became {d}, the batch's {}", a.dtype()));
                        }
                        let b = es(RecordBatch::try_from(a.clone()))?;
                        if DataType::Struct(b.schema().fields().clone()) != es_ {
                            return Err(format!("batch has schema {} instead of {es_}", DataType::Struct(b.schema().fields().clone())));
                        }
                        if b.num_rows() != rows {
                            return Err(format!("batch has {} rows instead of {rows}", b.num_rows()));
                        }
                        for (k, c) in cols.iter().enumerate() {
                            if let Some(d) = diff_vals(&read_arrow(b.column(k))?, &c.vals) {
                                return Err(format!("column {k}: {d}"));
                            }
                        }
                        let sc = es(infer_schema(a.dtype()))?;
                        if DataType::Struct(sc.fields().clone()) != es_ {
                            return Err(format!("inferred schema {} instead of {es_}", DataType::Struct(sc.fields().clone())));
                        }
                        Ok(())
                    },
                );
                if rows == 3 {
                    ctx.check(
                        || key("batchslice"),
                        || {
                            let a = es(Array::try_from(rb.slice(1, 2)))?;
                            same(&a, &want.slice(1, 3))?;
                            let b = es(RecordBatch::try_from(es(slice(&a, 1, 2))?))?;
                            for (k, c) in cols.iter().enumerate() {
                                if let Some(d) = diff_vals(&read_arrow(b.column(k))?, &c.vals[2..3]) {
                                    return Err(format!("column {k}: {d}"));
                                }
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    });
    ctx.bound(format!("record batches: every list of up to 2 and selected lists of 3 of {} column types, three naming schemes (odd and repeated names), 0, 1 and 3 rows", rep.len()));

    // 4. structs whose non-nullable fields are masked by null rows, nested once
    for mask_in in 0..8u8 {
        let parent: Vec<bool> = (0..3).map(|i| mask_in >> i & 1 == 1).collect();
        let kid = Arc::new(arrow_array::Int32Array::new(vec![1, 2, 3].into(), Some(NullBuffer::from(parent.clone())))) as ArrayRef;
        for deep in [false, true] {
            let fs = Fields::from(vec![Field::new("k", DataType::Int32, false)]);
            let inner = AStruct::new(fs.clone(), vec![kid.clone()], Some(NullBuffer::from(parent.clone())));
            let (arr, dt) = if deep {
                let fs2 = Fields::from(vec![Field::new("s", DataType::Struct(fs.clone()), false)]);
                (
                    Arc::new(AStruct::new(fs2, vec![Arc::new(inner)], Some(NullBuffer::from(parent.clone())))) as ArrayRef,
                    struct_dtype(&["s"], vec![struct_dtype(&["k"], vec![prim(PType::I32, false)], false)], true),
                )
            } else {
                (Arc::new(inner) as ArrayRef, struct_dtype(&["k"], vec![prim(PType::I32, false)], true))
            };
            let want = Col::new(
                dt,
                (0..3)
                    .map(|i| {
                        if !parent[i] {
                            return V::Null;
                        }
                        let x = V::Struct(vec![V::of_int(PType::I32, i as i128 + 1)]);
                        if deep { V::Struct(vec![x]) } else { x }
                    })
                    .collect(),
            );
            ctx.check(
                || format!("masked|{deep}|{mask_in}"),
                || {
                    let a = Array::from_arrow(arr.clone(), true);
                    same(&a, &want)?;
                    let r = es(es(a.into_canonical())?.into_arrow())?;
                    match diff_vals(&read_arrow(&r)?, &want.vals) {
                        Some(d) => Err(d),
                        None => Ok(()),
                    }
                },
            );
        }
    }
    ctx.bound("structs with non-nullable fields whose nulls are masked by the parent's, every mask of 3 rows, nested once");
}
