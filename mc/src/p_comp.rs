//! C22: the sampling compressor. Three spaces are enumerated:
//!  1. every way of compressing a column that a sample could lead to: all compression trees up to a
//!     depth, forced upon every small column (the tree is what sampling hands to the encoder);
//!  2. compressor subsets on small and long columns;
//!  3. long columns whose exceptional value sits at every position, i.e. inside and outside of every
//!     sample, and reuse of the tree chosen for one column for every other one.
use std::collections::HashSet;

use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::slice;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::{DType, PType};
use vortex_sampling_compressor::compressors::alp::ALPCompressor;
use vortex_sampling_compressor::compressors::alp_rd::ALPRDCompressor;
use vortex_sampling_compressor::compressors::bitpacked::{BITPACK_NO_PATCHES, BITPACK_WITH_PATCHES};
use vortex_sampling_compressor::compressors::constant::ConstantCompressor;
use vortex_sampling_compressor::compressors::date_time_parts::DateTimePartsCompressor;
use vortex_sampling_compressor::compressors::delta::DeltaCompressor;
use vortex_sampling_compressor::compressors::dict::DictCompressor;
use vortex_sampling_compressor::compressors::fsst::FSSTCompressor;
use vortex_sampling_compressor::compressors::r#for::FoRCompressor;
use vortex_sampling_compressor::compressors::roaring_bool::RoaringBoolCompressor;
use vortex_sampling_compressor::compressors::roaring_int::RoaringIntCompressor;
use vortex_sampling_compressor::compressors::runend::DEFAULT_RUN_END_COMPRESSOR;
use vortex_sampling_compressor::compressors::sparse::SparseCompressor;
use vortex_sampling_compressor::compressors::zigzag::ZigZagCompressor;
use vortex_sampling_compressor::compressors::{CompressionTree, CompressorRef};
use vortex_sampling_compressor::{SamplingCompressor, DEFAULT_COMPRESSORS, FASTEST_COMPRESSORS};

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_core::{far_types, long_subset, preludes, run_ops_ok, scalar_is, small};
use crate::report::*;

/// Compressor and number of child slots it looks at.
fn roots() -> Vec<(CompressorRef<'static>, usize)> {
    vec![
        (&BITPACK_WITH_PATCHES, 1),
        (&BITPACK_NO_PATCHES, 1),
        (&FoRCompressor, 1),
        (&ZigZagCompressor, 1),
        (&DEFAULT_RUN_END_COMPRESSOR, 2),
        (&DictCompressor, 2),
        (&DeltaCompressor, 2),
        (&RoaringIntCompressor, 0),
        (&ConstantCompressor, 0),
        (&SparseCompressor, 2),
        (&ALPCompressor, 2),
        (&ALPRDCompressor, 0),
        (&FSSTCompressor, 2),
        (&RoaringBoolCompressor, 0),
        (&DateTimePartsCompressor, 3),
    ]
}

fn all_set() -> HashSet<CompressorRef<'static>> {
    roots().into_iter().map(|r| r.0).collect()
}

/// Trees hold `Arc<dyn EncoderMetadata>` without `Send + Sync`; the metadata that occurs (trained
/// symbol tables and encoders, ratios) is plain immutable data.
#[derive(Clone)]
pub struct Tree(CompressionTree<'static>);
unsafe impl Send for Tree {}
unsafe impl Sync for Tree {}
impl Tree {
    fn get(&self) -> &CompressionTree<'static> {
        &self.0
    }
}

/// What the children of a compressor's tree may be: numeric choices only (children are always
/// integer or float columns, except for dictionary values).
fn leaves() -> Vec<(String, Option<Tree>)> {
    let mut v: Vec<(String, Option<Tree>)> = vec![("-".into(), None)];
    for (c, k) in roots() {
        if matches!(c.id(), "vortex.alprd" | "vortex.datetimeparts" | "vortex.fsst" | "roaring.bool" | "vortex.roaring_bool") {
            continue;
        }
        v.push((c.id().rsplit('.').next().unwrap().to_string(), Some(Tree(CompressionTree::new(c, vec![None; k])))));
    }
    v
}

fn product(kids: &[(String, Option<Tree>)], k: usize) -> Vec<(String, Vec<Option<Tree>>)> {
    let mut out = vec![(String::new(), vec![])];
    for _ in 0..k {
        let mut next = vec![];
        for (n, v) in &out {
            for (m, t) in kids {
                let mut w: Vec<Option<Tree>> = v.clone();
                w.push(t.clone());
                next.push((format!("{n}{}{m}", if n.is_empty() { "" } else { "," }), w));
            }
        }
        out = next;
    }
    out
}

fn strip(v: Vec<Option<Tree>>) -> Vec<Option<CompressionTree<'static>>> {
    v.into_iter().map(|t| t.map(|t| t.0)).collect()
}

fn trees(depth: usize, thorough: bool) -> Vec<(String, Tree)> {
    let kids1 = leaves();
    // children one level deeper, used in one slot at a time
    let mut out = vec![];
    for (c, k) in roots() {
        let id = c.id().rsplit('.').next().unwrap();
        let ks = if k >= 3 { kids1.iter().filter(|x| thorough || matches!(x.0.as_str(), "-" | "bitpacked" | "for" | "dict" | "ree" | "runend")).cloned().collect() } else { kids1.clone() };
        for (n, v) in product(&ks, k) {
            out.push((format!("{id}[{n}]"), Tree(CompressionTree::new(c, strip(v)))));
        }
        if depth > 2 {
            for (c2, k2) in roots() {
                let id2 = c2.id().rsplit('.').next().unwrap();
                if matches!(id2, "alprd" | "datetimeparts" | "fsst") || k2 == 0 {
                    continue;
                }
                for (n2, v2) in product(&kids1, k2) {
                    if !thorough && k2 == 2 && v2.iter().all(|t| t.is_some()) {
                        continue;
                    }
                    for slot in 0..k {
                        let mut v: Vec<Option<Tree>> = vec![None; k];
                        v[slot] = Some(Tree(CompressionTree::new(c2, strip(v2.clone()))));
                        out.push((format!("{id}[{slot}={id2}[{n2}]]"), Tree(CompressionTree::new(c, strip(v)))));
                    }
                }
            }
        }
    }
    out
}

/// The whole column through the decoder, then single elements and a slice.
fn lossless(got: &Array, want: &Col, at: &[usize]) -> Result<(), String> {
    if got.dtype() != &want.dtype {
        return Err(format!("type {} instead of {}", got.dtype(), want.dtype));
    }
    same(got, want)?;
    for i in at {
        if *i < want.len() {
            scalar_is(got, want, *i).map_err(|e| format!("scalar_at: {e}"))?;
        }
    }
    if want.len() > 1 {
        let s = es(slice(got, 1, want.len()))?;
        same(&s, &want.slice(1, want.len())).map_err(|e| format!("slice: {e}"))?;
    }
    Ok(())
}

pub fn tree_name(a: &Array, out: &mut String) {
    out.push_str(a.encoding().id().as_ref().rsplit('.').next().unwrap());
    let kids = a.children();
    if !kids.is_empty() {
        out.push('[');
        for (i, k) in kids.iter().enumerate() {
            if i > 0 {
                out.push(',');
            }
            tree_name(k, out);
        }
        out.push(']');
    }
}

fn inputs(c: &Col) -> Vec<(&'static str, Result<Array, String>)> {
    let mut v: Vec<(&'static str, Result<Array, String>)> = vec![("", guard(|| plain(c)))];
    if matches!(c.dtype, DType::Utf8(_) | DType::Binary(_)) {
        v.push(("view", guard(|| varbinview(c).into_array())));
    }
    if matches!(c.dtype, DType::Primitive(..)) && c.len() > 1 {
        let fill = c.vals.iter().find(|x| !x.is_null()).cloned().unwrap_or(V::Null);
        v.push(("sparse", attempt(|| es(sparse(c, &fill)))));
    }
    // a slice of a larger array, so that buffers carry an offset
    if c.len() > 0 {
        let mut w = c.vals.clone();
        w.insert(0, c.vals[c.len() - 1].clone());
        w.push(c.vals[0].clone());
        let big = Col::new(c.dtype.clone(), w);
        v.push(("sliced", attempt(|| es(slice(plain(&big), 1, c.len() + 1)))));
    }
    v
}

fn forced(ctx: &Ctx, cols: &[Col], ts: &[(String, Tree)], what: &str) {
    cols.par_iter().for_each(|c| {
        for (how, a) in inputs(c) {
            let Ok(a) = a else { continue };
            ctx.state();
            // nothing enabled: what the tree does not say stays as it is
            let comp = SamplingCompressor::new(HashSet::new());
            for (n, t) in ts {
                let can = guard(|| t.get().compressor().can_compress(&a).is_some());
                match can {
                    Ok(false) => continue,
                    Ok(true) => {}
                    Err(m) => {
                        ctx.fail(format!("{what}|{n}|{how}|{}|can_compress", c.desc()), m);
                        continue;
                    }
                }
                let key = || format!("{what}|{n}|{how}|{}", c.desc());
                ctx.check(key, || {
                    let r = es(comp.compress(&a, Some(t.get())))?.into_array();
                    ctx.sample(|| {
                        let mut s = String::new();
                        tree_name(&r, &mut s);
                        format!("{} -> {s}", key())
                    });
                    lossless(&r, c, &(0..c.len().min(8)).collect::<Vec<_>>())
                });
            }
        }
    });
}

/// Base patterns for long columns.
fn bases() -> Vec<(&'static str, DType, Box<dyn Fn(usize) -> V + Sync + Send>, Vec<V>)> {
    let ints = |p: PType, xs: &[i128]| -> Vec<V> { xs.iter().map(|x| V::of_int(p, *x)).collect() };
    let f = |x: &[f64]| -> Vec<V> { x.iter().map(|x| V::f64(*x)).collect() };
    let mut out: Vec<(&'static str, DType, Box<dyn Fn(usize) -> V + Sync + Send>, Vec<V>)> = vec![];
    let u64x = ints(PType::U64, &[0, 300, imax(PType::U64)]);
    let u = |x: usize| V::of_int(PType::U64, x as i128);
    out.push(("u64const", prim(PType::U64, false), Box::new(move |_| u(7)), u64x.clone()));
    out.push(("u64mod", prim(PType::U64, false), Box::new(move |i| u(i % 4)), u64x.clone()));
    out.push(("u64lin", prim(PType::U64, false), Box::new(move |i| u(i + 5)), u64x.clone()));
    out.push(("u64run", prim(PType::U64, false), Box::new(move |i| u(i / 100)), u64x.clone()));
    out.push(("u64shift", prim(PType::U64, false), Box::new(move |i| u(1000 + 8 * (i % 200))), u64x.clone()));
    let i32x = ints(PType::I32, &[imin(PType::I32), 3, imax(PType::I32)]);
    let s = |x: i64| V::of_int(PType::I32, x as i128);
    out.push(("i32const", prim(PType::I32, false), Box::new(move |_| s(-5)), i32x.clone()));
    out.push(("i32mod", prim(PType::I32, false), Box::new(move |i| s((i % 7) as i64 - 3)), i32x.clone()));
    out.push(("i32run", prim(PType::I32, false), Box::new(move |i| s(-((i / 50) as i64))), i32x.clone()));
    out.push(("i32pos", prim(PType::I32, false), Box::new(move |i| s(64 * (i as i64 % 90) + 640)), i32x.clone()));
    let i8x = ints(PType::I8, &[imin(PType::I8), imax(PType::I8)]);
    out.push(("i8mod", prim(PType::I8, false), Box::new(move |i| V::of_int(PType::I8, (i % 5) as i128)), i8x));
    let u16x = ints(PType::U16, &[0, imax(PType::U16)]);
    out.push(("u16mod", prim(PType::U16, false), Box::new(move |i| V::of_int(PType::U16, 40000 + (i % 9) as i128)), u16x));
    let i64x = ints(PType::I64, &[imin(PType::I64), 1, imax(PType::I64)]);
    out.push(("i64mod", prim(PType::I64, false), Box::new(move |i| V::of_int(PType::I64, (i % 11) as i128 * 4 - 16)), i64x));
    let fx = f(&[f64::NAN, -0.0, 1e300, 0.1 + 0.2, f64::INFINITY]);
    out.push(("f64half", prim(PType::F64, false), Box::new(|i| V::f64((i % 100) as f64 * 0.5)), fx.clone()));
    out.push(("f64dec", prim(PType::F64, false), Box::new(|i| V::f64(i as f64 / 100.0)), fx.clone()));
    out.push(("f64const", prim(PType::F64, false), Box::new(|_| V::f64(0.0)), fx.clone()));
    out.push(("f64run", prim(PType::F64, false), Box::new(|i| V::f64((i / 64) as f64 * 0.25)), fx.clone()));
    out.push(("f64sqrt", prim(PType::F64, false), Box::new(|i| V::f64((i as f64).sqrt())), fx));
    out.push((
        "f32half",
        prim(PType::F32, false),
        Box::new(|i| V::f32((i % 50) as f32 * 0.25)),
        vec![V::f32(f32::NAN), V::f32(-0.0), V::f32(1e30), V::f32(0.1)],
    ));
    let st = vec![V::s(""), V::s("\u{e9}\u{fe}"), V::S(vec![b'z'; 300])];
    out.push(("utf8dict", DType::Utf8(nn(false)), Box::new(|i| V::s(&format!("value {}", i % 10))), st.clone()));
    out.push(("utf8long", DType::Utf8(nn(false)), Box::new(|i| V::s(&format!("https://example.org/item/{}", i * 7919))), st.clone()));
    out.push(("utf8const", DType::Utf8(nn(false)), Box::new(|_| V::s("the same string all over")), st));
    out.push(("binlong", DType::Binary(nn(false)), Box::new(|i| V::S(format!("blob{}", i * 31).into_bytes())), vec![V::S(vec![]), V::S(vec![255; 20])]));
    out.push(("booltrue", DType::Bool(nn(false)), Box::new(|_| V::B(true)), vec![V::B(false)]));
    out.push(("boolrun", DType::Bool(nn(false)), Box::new(|i| V::B(i / 77 % 2 == 0)), vec![V::B(false)]));
    for (name, fam) in [("tsus", &ts_fams(false)[0]), ("tss", &ts_fams(false)[3])] {
        let d = fam.dtype.clone();
        let step: i128 = if name == "tsus" { 1_500_000 } else { 3600 };
        out.push((
            name,
            d,
            Box::new(move |i| V::of_int(PType::I64, 1_690_000_000 + i as i128 * step)),
            vec![V::of_int(PType::I64, -1), V::of_int(PType::I64, 0)],
        ));
    }
    out
}

fn with_null(d: &DType) -> DType {
    d.as_nullable()
}

pub fn sets(full: bool) -> Vec<(String, HashSet<CompressorRef<'static>>)> {
    let mut v = vec![
        ("default".to_string(), HashSet::from(*DEFAULT_COMPRESSORS)),
        ("fastest".to_string(), HashSet::from(*FASTEST_COMPRESSORS)),
        ("all".to_string(), all_set()),
        ("none".to_string(), HashSet::new()),
    ];
    let r = roots();
    for (i, (c, _)) in r.iter().enumerate() {
        v.push((format!("only {}", c.id()), HashSet::from([*c])));
        let mut s = all_set();
        s.remove(c);
        v.push((format!("all but {}", c.id()), s));
        if full {
            for (d, _) in &r[i + 1..] {
                v.push((format!("{}+{}", c.id(), d.id()), HashSet::from([*c, *d])));
            }
        }
    }
    v
}

pub fn c22(ctx: &Ctx) {
    let full = ctx.thorough;

    // 1. forced choices
    let mut cols = small(full, 1, 3);
    cols.retain(|c| !matches!(c.dtype, DType::Struct(..) | DType::Null));
    let ts = trees(2, full);
    forced(ctx, &cols, &ts, "tree2");
    ctx.bound(format!("{} columns of length 1..=3, as plain, view, sparse and sliced arrays, each compressed like every one of {} compression trees of depth 2 it allows", cols.len(), ts.len()));
    let deep = trees(3, full);
    let mut deepc: Vec<Col> = vec![];
    for n in [false, true] {
        for f in [int_mid(PType::U32, n), int_ext(PType::I32, n), int_ext(PType::U64, n), float_fams(n)[1].clone(), ts_fams(n)[0].clone(), utf8_fam(n)] {
            deepc.extend(small_cols(&f, 2, if full { 4 } else { 3 }));
        }
    }
    forced(ctx, &deepc, &deep[..], "tree3");
    ctx.bound(format!("{} columns, each like every one of {} compression trees of depth 3", deepc.len(), deep.len()));
    let mut blocks: Vec<Col> = vec![];
    for n in [false, true] {
        for p in [PType::U32, PType::I64, PType::F64] {
            blocks.extend(long_cols(p, n, if full { &[1025, 2048] } else { &[1025] }, false));
        }
    }
    forced(ctx, &blocks, &ts, "treeblock");
    ctx.bound(format!("{} columns of 1025 and more elements with exceptions around block boundaries, each like every tree of depth 2", blocks.len()));

    // 2. subsets of compressors
    let ss = sets(full);
    let bs = bases();
    let n = 2000;
    let mut jobs = vec![];
    for b in &bs {
        for null in [false, true] {
            for (sn, s) in &ss {
                jobs.push((b, null, sn, s));
            }
        }
    }
    jobs.par_iter().for_each(|(b, null, sn, s)| {
        let base = &b.2;
        let d = if *null { with_null(&b.1) } else { b.1.clone() };
        for len in [1usize, 5, 700, 1025, n] {
            let mut cs = vec![pattern(d.clone(), len, base, &[])];
            if *null {
                cs.push(pattern(d.clone(), len, |i| if i % 3 == 1 { V::Null } else { base(i) }, &[]));
                cs.push(pattern(d.clone(), len, |i| if i % 100 == 1 { base(i) } else { V::Null }, &[]));
                cs.push(pattern(d.clone(), len, |_| V::Null, &[]));
            }
            for c in cs {
                ctx.state();
                ctx.check(
                    || format!("set|{}|{sn}|{}", b.0, c.desc()),
                    || {
                        let r = es(SamplingCompressor::new((*s).clone()).compress(&plain(&c), None))?.into_array();
                        lossless(&r, &c, &hot(len))
                    },
                );
            }
        }
    });
    ctx.bound(format!("{} compressor sets x {} base patterns x nullability x lengths 1, 5, 700, 1025, 2000", ss.len(), bs.len()));

    // 3. exceptions inside and outside of the sample
    let mut jobs = vec![];
    for (k, b) in bs.iter().enumerate() {
        for i in 0..n {
            if !full && i % 3 != k % 3 && !hot(n).contains(&i) {
                continue;
            }
            jobs.push((b, i));
        }
    }
    jobs.par_iter().for_each(|(b, i)| {
        let comp = SamplingCompressor::default();
        for (k, x) in b.3.iter().chain([&V::Null]).enumerate() {
            if !full && k % 2 != i % 2 && b.3.len() > 1 {
                continue;
            }
            let d = if x.is_null() { with_null(&b.1) } else { b.1.clone() };
            let c = pattern(d, n, &b.2, &[(*i, x.clone())]);
            ctx.state();
            ctx.check(
                || format!("exc|{}|{i}={x:?}", b.0),
                || {
                    let r = es(comp.compress(&plain(&c), None))?.into_array();
                    lossless(&r, &c, &[*i, i.saturating_sub(1), i + 1])
                },
            );
        }
    });
    ctx.bound(format!("{} base patterns of {n} elements with each exceptional value (or null) at every position (quick: a third of the positions per pattern, every second value)", bs.len()));

    // far columns: what the sample says of a column of many blocks is not all there is to it
    let far = far_cols(&far_types(ctx, &[PType::U8, PType::U32, PType::I64, PType::F64, PType::F32]), true);
    let mut jobs = vec![];
    for c in &far {
        for (sn, s) in ss.iter().filter(|(sn, _)| full || !sn.starts_with("all but")) {
            jobs.push((c, sn, s));
        }
    }
    jobs.par_iter().for_each(|(c, sn, s)| {
        let n = c.len();
        for cut in [0, 1025 % n] {
            let k = c.slice(cut, n);
            ctx.state();
            ctx.check(
                || format!("far|{sn}|{}|{cut}..", c.desc()),
                || {
                    let a = es(slice(plain(c), cut, n))?;
                    let r = es(SamplingCompressor::new((*s).clone()).compress(&a, None))?.into_array();
                    lossless(&r, &k, &hot(k.len()))
                },
            );
        }
    });
    ctx.bound(format!("{} columns of 4100 and 66000 elements, whole and sliced, with the default, the fastest, all and each single compressor", far.len()));

    // 4. reuse of a choice
    let pats: Vec<(String, Col)> = bs
        .iter()
        .flat_map(|b| {
            let base = &b.2;
            let mut v = vec![
                (b.0.to_string(), pattern(b.1.clone(), 1500, base, &[])),
                (format!("{}+exc", b.0), pattern(b.1.clone(), 1500, base, &[(0, b.3[0].clone()), (1400, b.3[b.3.len() - 1].clone())])),
                (format!("{}+null", b.0), pattern(with_null(&b.1), 1500, |i| if i % 5 == 0 { V::Null } else { base(i) }, &[])),
            ];
            if full {
                v.push((format!("{}+allnull", b.0), pattern(with_null(&b.1), 1500, |_| V::Null, &[])));
                v.push((format!("{}+short", b.0), pattern(b.1.clone(), 3, base, &[])));
            }
            v
        })
        .collect();
    let strs: Vec<(String, Col)> = [(0usize, 6usize), (6, 0), (13, 18)]
        .iter()
        .map(|(i, j)| {
            let (x, y) = (&bs[*i], &bs[*j]);
            let d = struct_dtype(&["a", "b"], vec![x.1.clone(), y.1.clone()], false);
            (format!("struct({},{})", x.0, y.0), pattern(d, 1500, |k| V::Struct(vec![x.2(k), y.2(k)]), &[]))
        })
        .chain([{
            let x = &bs[1];
            let d = struct_dtype(&["a"], vec![x.1.clone()], true);
            ("struct1".to_string(), pattern(d, 1500, |k| if k % 4 == 0 { V::Null } else { V::Struct(vec![x.2(k)]) }, &[]))
        }])
        .collect();
    let mut pats = pats;
    pats.extend(strs);
    for (sn, s) in [("default", HashSet::from(*DEFAULT_COMPRESSORS)), ("all", all_set())] {
        let comp = SamplingCompressor::new(s);
        let like: Vec<(String, Option<Tree>)> = pats
            .par_iter()
            .map(|(n, c)| {
                let t = attempt(|| Ok(es(comp.compress(&plain(c), None))?.into_path().map(Tree)));
                (n.clone(), t.ok().flatten())
            })
            .collect();
        // the same through a chunked array, whose tree wraps the one of its chunks
        pats.par_iter().for_each(|(n, c)| {
            let a = plain(c);
            for (m, t) in &like {
                let Some(t) = t else { continue };
                ctx.state();
                ctx.check(
                    || format!("reuse|{sn}|{n} like {m}"),
                    || {
                        let r = es(comp.compress(&a, Some(t.get())))?.into_array();
                        lossless(&r, c, &[0, 1, 1024, 1400])
                    },
                );
            }
        });
    }
    ctx.bound(format!("all {} x {} pairs of columns (all types), the second compressed the way that was chosen for the first, with the default and with all compressors", pats.len(), pats.len()));

    // 5. chunked arrays: the choice of one chunk is reused for the next ones
    let mut jobs = vec![];
    for (i, x) in bs.iter().enumerate() {
        for y in bs.iter() {
            if x.1 == y.1 {
                for null in [false, true] {
                    jobs.push((i, x, y, null));
                }
            }
        }
    }
    jobs.par_iter().for_each(|(i, x, y, null)| {
        let d = if *null { with_null(&x.1) } else { x.1.clone() };
        let comp = SamplingCompressor::default();
        let long = full || matches!(x.1, DType::Primitive(..)) && i % 2 == 0;
        for (len, k) in [(40usize, 3usize), (33_000, 2)] {
            if len > 1000 && !long {
                continue;
            }
            let part = |b: &(dyn Fn(usize) -> V + Sync + Send), off: usize| {
                pattern(d.clone(), len, |j| if *null && (j + off) % 6 == 0 { V::Null } else { b(j + off) }, &[])
            };
            let mut parts = vec![part(&x.2, 0), part(&y.2, 17)];
            if k == 3 {
                parts.push(part(&x.2, 1000));
            }
            let want = Col::concat(&parts);
            ctx.state();
            ctx.check(
                || format!("chunked|{}-{}|{len}x{k}|{null}", x.0, y.0),
                || {
                    let ch = es(ChunkedArray::try_new(parts.iter().map(plain).collect(), d.clone()))?.into_array();
                    let r = es(comp.compress(&ch, None))?.into_array();
                    lossless(&r, &want, &[0, len - 1, len, len + 1, 2 * len - 1])
                },
            );
        }
    });
    // small chunked and nested inputs
    let mut small_c = small(false, 1, 3);
    if !full {
        let mut k = 0;
        small_c.retain(|c| {
            k += 1;
            c.len() < 3 || k % 2 == 0
        });
    }
    explore(ctx, small_c, if full { Rich::More } else { Rich::Core }, |s| {
        for pre in preludes(s.col.len()) {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            ctx.check(
                || s.key("encoded", &path(&pre)),
                || {
                    let r = es(SamplingCompressor::new(all_set()).compress(&a, None))?.into_array();
                    lossless(&r, &c, &(0..c.len()).collect::<Vec<_>>())
                },
            );
        }
    });
    // long columns in every encoding, whole and sliced around the block boundaries
    let long = long_subset(ctx, &[PType::I64, PType::U16], &[1500]);
    explore(ctx, long, Rich::Core, |s| {
        let n = s.col.len();
        let mut pres = vec![vec![]];
        pres.extend(hot_slices(n).into_iter().map(|o| vec![o]));
        if !full {
            let mut k = 0;
            pres.retain(|_| {
                k += 1;
                k % 3 == 1
            });
        }
        for pre in pres {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            for (sn, set) in [("default", HashSet::from(*DEFAULT_COMPRESSORS)), ("all", all_set())] {
                if !full && sn == "default" && !pre.is_empty() {
                    continue;
                }
                ctx.check(
                    || s.key("encoded", &format!("{sn}|{}", path(&pre))),
                    || {
                        let r = es(SamplingCompressor::new(set).compress(&a, None))?.into_array();
                        lossless(&r, &c, &hot(c.len()))
                    },
                );
            }
        }
    });
    ctx.bound("chunked arrays of every pair of patterns of a type (small chunks that are merged, and chunks too large to merge, where the first one's choice is reused); columns of length 1..=3 in every encoding as input");
    // structs, nested structs and structs with null rows, of different columns
    let reps: Vec<&(&'static str, DType, Box<dyn Fn(usize) -> V + Sync + Send>, Vec<V>)> = bs.iter().collect();
    reps.par_iter().for_each(|x| {
        for y in &reps {
            for null in [false, true] {
                let inner = struct_dtype(&["p"], vec![with_null(&y.1)], null);
                let d = struct_dtype(&["a", "b"], vec![x.1.clone(), inner], null);
                let c = pattern(
                    d,
                    1100,
                    |k| {
                        if null && k % 9 == 0 {
                            V::Null
                        } else {
                            V::Struct(vec![x.2(k), if null && k % 4 == 0 { V::Null } else { V::Struct(vec![if k % 3 == 0 { V::Null } else { y.2(k) }]) }])
                        }
                    },
                    &[],
                );
                ctx.state();
                ctx.check(
                    || format!("struct|{},{}|{null}", x.0, y.0),
                    || {
                        let r = es(SamplingCompressor::default().compress(&plain(&c), None))?.into_array();
                        same(&r, &c)
                    },
                );
            }
        }
    });
    ctx.bound("two-level structs of all pairs of patterns, with and without null rows at both levels");
}
