//! C17 file format, C18 push-down, C19 row selection, C20 I/O schedules and failures, C21 truncation.
use std::pin::pin;
use std::sync::Arc;

use futures_util::StreamExt;
use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::slice;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::field::Field;
use vortex_dtype::{DType, PType};
use vortex_expr::Operator;
use vortex_serde::io::{VortexReadAt, VortexWrite};
use vortex_serde::layouts::{AsyncRuntime, LayoutContext, LayoutDeserializer, LayoutReaderBuilder, LayoutWriter, Projection, RowFilter, VortexRecordBatchReader};

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_expr::*;
use crate::p_wire::*;
use crate::report::Ctx;

/// A table: its columns, and the batches it is written in.
#[derive(Clone)]
pub struct Tab {
    pub col: Col,
    pub batches: Vec<Array>,
    pub desc: String,
}

/// The rows of a table of these columns.
pub fn rows_of(names: &[&str], cols: &[Col], n: usize) -> Col {
    let d = struct_dtype(names, cols.iter().map(|c| c.dtype.clone()).collect(), false);
    Col::new(d, (0..n).map(|i| V::Struct(cols.iter().map(|c| c.vals[i].clone()).collect())).collect())
}
pub fn struct_of(names: &[&str], arrays: Vec<Array>, n: usize) -> Array {
    StructArray::try_new(names.iter().map(|s| Arc::<str>::from(*s)).collect::<Vec<_>>().into(), arrays, n, Validity::NonNullable)
        .expect("fields of equal length")
        .into_array()
}

pub async fn write_to<W: VortexWrite>(w: W, d: &DType, batches: &[Array]) -> Result<W, String> {
    let mut wr = LayoutWriter::new(w);
    wr = es(wr.write_array_columns_stream(vec_stream(d.clone(), batches.to_vec())).await)?;
    es(wr.finalize().await)
}
impl Tab {
    pub fn bytes(&self) -> Result<Vec<u8>, String> {
        drive(write_to(vec![], &self.col.dtype, &self.batches), LIMIT)?
    }
}

pub fn serde_ctx() -> LayoutDeserializer {
    LayoutDeserializer::new(all_context(), Arc::new(LayoutContext::default()))
}

#[derive(Clone, Default)]
pub struct Req {
    pub batch: Option<usize>,
    pub proj: Projection,
    pub filter: Option<RowFilter>,
}
impl Req {
    pub fn b(n: usize) -> Req {
        Req { batch: Some(n), ..Default::default() }
    }
}

/// Read a file to the end: the type the reader announces and every batch.
pub async fn read_from<R: VortexReadAt + Unpin + Send + 'static>(r: R, q: &Req, size: Option<u64>, cap: usize) -> Result<(DType, Vec<Array>), String> {
    let mut b = LayoutReaderBuilder::new(r, serde_ctx()).with_projection(q.proj.clone());
    if let Some(n) = q.batch {
        b = b.with_batch_size(n);
    }
    if let Some(f) = &q.filter {
        b = b.with_row_filter(f.clone());
    }
    if let Some(n) = size {
        b = b.with_size(n);
    }
    let st = es(b.build().await)?;
    let d = st.schema().dtype().clone();
    let mut st = pin!(st);
    let mut v = vec![];
    while let Some(x) = st.next().await {
        v.push(es(x)?);
        if v.len() > cap {
            return Err(format!("more than {cap} batches"));
        }
    }
    Ok((d, v))
}
pub fn read_bytes(bytes: &[u8], q: &Req, cap: usize) -> Result<(DType, Vec<Array>), String> {
    drive(read_from(bytes.to_vec(), q, None, cap), LIMIT)?
}

/// The batches are these rows, in order, all of the announced type.
pub fn rows_eq(got: &(DType, Vec<Array>), want: &Col) -> Result<(), String> {
    if got.0 != want.dtype {
        return Err(format!("schema {} instead of {}", got.0, want.dtype));
    }
    let mut at = 0;
    for (k, b) in got.1.iter().enumerate() {
        if *b.dtype() != want.dtype {
            return Err(format!("batch {k} has type {} instead of {}", b.dtype(), want.dtype));
        }
        let n = b.len();
        if at + n > want.len() {
            return Err(format!("more than {} rows", want.len()));
        }
        same(b, &want.slice(at, at + n)).map_err(|m| format!("rows from {at}: {m}"))?;
        at += n;
    }
    if at != want.len() {
        return Err(format!("{at} rows instead of {}", want.len()));
    }
    Ok(())
}

/// Every encoding of a column that keeps its type.
pub fn encs_of(c: &Col, rich: Rich) -> Vec<(String, Array)> {
    encodings(c, rich).into_iter().filter_map(|(n, r)| r.ok().map(|a| (n, a))).filter(|(_, a)| *a.dtype() == c.dtype).collect()
}

pub const SIZES: [usize; 6] = [1, 2, 3, 4, 7, 65536];

struct Block;
impl AsyncRuntime for Block {
    fn block_on<F: std::future::Future>(&self, fut: F) -> F::Output {
        drive(fut, LIMIT).unwrap()
    }
}

fn read_all_ways(ctx: &Ctx, t: &Tab, sizes: &[usize], more: bool) {
    ctx.state();
    ctx.sample(|| t.desc.clone());
    let mut bytes = None;
    ctx.check(|| format!("write|{}", t.desc), || t.bytes().map(|b| bytes = Some(b)));
    let Some(bytes) = bytes else { return };
    let cap = t.col.len() + t.batches.len() + 10;
    for s in sizes {
        ctx.check(|| format!("read|{}|{s}", t.desc), || rows_eq(&read_bytes(&bytes, &Req::b(*s), cap)?, &t.col));
    }
    if !more {
        return;
    }
    ctx.check(|| format!("read|{}|default", t.desc), || rows_eq(&read_bytes(&bytes, &Req::default(), cap)?, &t.col));
    ctx.check(
        || format!("sized|{}", t.desc),
        || rows_eq(&drive(read_from(vortex_buffer::Buffer::from(bytes.clone()), &Req::b(2), Some(bytes.len() as u64), cap), LIMIT)??, &t.col),
    );
    ctx.check(
        || format!("read_all|{}", t.desc),
        || {
            let st = es(drive(LayoutReaderBuilder::new(bytes.clone(), serde_ctx()).with_batch_size(3).build(), LIMIT)?)?;
            let a = es(drive(st.read_all(), LIMIT)?)?;
            rows_eq(&(a.dtype().clone(), vec![a]), &t.col)
        },
    );
    ctx.check(
        || format!("write_array|{}", t.desc),
        || {
            let a = es(ChunkedArray::try_new(t.batches.clone(), t.col.dtype.clone()))?.into_array();
            let w = drive(
                async {
                    let w = es(LayoutWriter::new(vec![]).write_array_columns(a).await)?;
                    es(w.finalize().await)
                },
                LIMIT,
            )??;
            rows_eq(&read_bytes(&w, &Req::b(2), cap)?, &t.col)
        },
    );
    // the same batches through one stream each
    ctx.check(
        || format!("write_twice|{}", t.desc),
        || {
            let w = drive(
                async {
                    let mut w = LayoutWriter::new(std::io::Cursor::new(vec![]));
                    w = es(w.write_array_columns_stream(vec_stream(t.col.dtype.clone(), vec![])).await)?;
                    for b in &t.batches {
                        w = es(w.write_array_columns_stream(vec_stream(t.col.dtype.clone(), vec![b.clone()])).await)?;
                    }
                    es(w.finalize().await)
                },
                LIMIT,
            )??;
            rows_eq(&read_bytes(&w.into_inner(), &Req::b(3), cap)?, &t.col)
        },
    );
    ctx.check(
        || format!("arrow|{}", t.desc),
        || {
            let st = es(drive(LayoutReaderBuilder::new(bytes.clone(), serde_ctx()).with_batch_size(3).build(), LIMIT)?)?;
            let rd = es(VortexRecordBatchReader::new(st, &Block))?;
            let mut n = 0;
            for b in rd {
                let b = b.map_err(|e| e.to_string())?;
                n += b.num_rows();
                if n > t.col.len() {
                    return Err("too many rows".into());
                }
                if b.num_columns() != t.col.vals.first().map(|v| if let V::Struct(v) = v { v.len() } else { 0 }).unwrap_or(b.num_columns()) {
                    return Err(format!("{} columns", b.num_columns()));
                }
            }
            if n != t.col.len() {
                return Err(format!("{n} rows instead of {}", t.col.len()));
            }
            Ok(())
        },
    );
}

/// Tables of a family: a column of it and an integer column that counts rows, in every sequence of up to `n` batches.
pub fn tables(f: &Fam, n: usize, rich: Rich) -> Vec<Tab> {
    let mut alpha = f.alpha.clone();
    if f.dtype.is_nullable() && f.dtype != DType::Null {
        alpha.insert(0, V::Null);
    }
    let mut cols: Vec<Col> = vec![Col::new(f.dtype.clone(), vec![])];
    cols.push(Col::new(f.dtype.clone(), vec![alpha[0].clone()]));
    cols.push(Col::new(f.dtype.clone(), alpha.clone()));
    let encs: Vec<Vec<(String, Array)>> = cols.iter().map(|c| encs_of(c, rich)).collect();
    let names = ["v", "row"];
    let ids: Vec<usize> = (0..cols.len()).collect();
    let mut out = vec![];
    let dt = struct_dtype(&names, vec![f.dtype.clone(), prim(PType::I32, false)], false);
    for len in 0..=n {
        for (q, s) in seqs(&ids, len).into_iter().enumerate() {
            let mut rows = Col::new(dt.clone(), vec![]);
            let mut batches = vec![];
            let mut d = vec![];
            for (j, c) in s.iter().enumerate() {
                let (name, a) = &encs[*c][(q * 7 + j * 3) % encs[*c].len()];
                let m = cols[*c].len();
                let base = rows.len() as i128;
                let count = Col::new(prim(PType::I32, false), (0..m).map(|i| V::of_int(PType::I32, base + i as i128)).collect());
                batches.push(struct_of(&names, vec![a.clone(), plain(&count)], m));
                rows = Col::concat(&[rows, rows_of(&names, &[cols[*c].clone(), count], m)]);
                d.push(format!("{name}:{m}"));
            }
            out.push(Tab { col: rows, batches, desc: format!("{}[{}]", f.name, d.join(",")) });
        }
    }
    out
}

pub fn c17(ctx: &Ctx) {
    let fams = all_fams(ctx.thorough);
    let n = if ctx.thorough { 5 } else { 4 };
    ctx.bound(format!("every type: a column of it next to a column of row numbers, every sequence of up to {n} batches out of 3 (empty, one row, several) in rotating encodings; read with batch sizes {SIZES:?} and the default, collected at once, through the record batch reader, written as one chunked array, and in one stream per batch"));
    let tabs: Vec<Tab> = fams.par_iter().flat_map(|f| tables(f, n, Rich::More)).collect();
    tabs.par_iter().for_each(|t| {
        ctx.tag(t.desc.split('[').next().unwrap());
        read_all_ways(ctx, t, &SIZES, true)
    });
    ctx.bound("every encoding of a column of every type, alone in a table");
    fams.par_iter().for_each(|f| {
        let mut alpha = f.alpha.clone();
        if f.dtype.is_nullable() && f.dtype != DType::Null {
            alpha.insert(1.min(alpha.len()), V::Null);
        }
        let c = Col::new(f.dtype.clone(), alpha.iter().cycle().take(7).cloned().collect());
        for (e, a) in encs_of(&c, Rich::Full) {
            ctx.tag(&base_enc(&e));
            let t = Tab { col: rows_of(&["x"], &[c.clone()], 7), batches: vec![struct_of(&["x"], vec![a], 7)], desc: format!("{}:{e}", f.name) };
            read_all_ways(ctx, &t, &[1, 3, 65536], false);
        }
    });
    let rows = if ctx.thorough { 5 } else { 4 };
    ctx.bound(format!("a table of {rows} rows and three columns of different types, every combination of splits of its first two columns into up to 3 chunks, empty ones included, the third plain; batch sizes 1 to 6"));
    let a = Col::new(prim(PType::I64, true), (0..rows).map(|i| if i == 1 { V::Null } else { V::of_int(PType::I64, 10 + i as i128) }).collect());
    let b = Col::new(DType::Utf8(nn(false)), (0..rows).map(|i| V::s(&"abcdefghijklmnopqrst"[..i * 4])).collect());
    let c = Col::new(DType::Bool(nn(true)), (0..rows).map(|i| if i == 2 { V::Null } else { V::B(i % 2 == 0) }).collect());
    let cuts = chunk_cuts(rows);
    let pairs: Vec<(Vec<usize>, Vec<usize>)> = cuts.iter().flat_map(|x| cuts.iter().map(|y| (x.clone(), y.clone()))).collect();
    pairs.into_par_iter().for_each(|(x, y)| {
        let Ok(ca) = chunked_with(&a, &x, |_, c| Ok(plain(c))) else { return };
        let Ok(cb) = chunked_with(&b, &y, |_, c| Ok(plain(c))) else { return };
        let names = ["a", "b", "c"];
        let t = Tab {
            col: rows_of(&names, &[a.clone(), b.clone(), c.clone()], rows),
            batches: vec![struct_of(&names, vec![ca, cb, plain(&c)], rows)],
            desc: format!("cuts{x:?}{y:?}"),
        };
        read_all_ways(ctx, &t, &[1, 2, 3, 4, 5, 6], false);
    });
    ctx.bound("tables without columns of 0, 1, 5 rows; without batches; structs within structs; columns of the same name; many rows per batch and many batches");
    let mut odd: Vec<Tab> = vec![];
    for ns in [vec![], vec![0], vec![1], vec![5], vec![2, 0, 3]] {
        let n: usize = ns.iter().sum();
        odd.push(Tab { col: rows_of(&[], &[], n), batches: ns.iter().map(|k| struct_of(&[], vec![], *k)).collect(), desc: format!("nocolumns{ns:?}") });
    }
    {
        let inner = struct_fam(true);
        let mut al = inner.alpha.clone();
        al.push(V::Null);
        let c = Col::new(inner.dtype.clone(), al);
        let n = c.len();
        for (e, x) in encs_of(&c, Rich::Full) {
            let outer = struct_of(&["in", "none"], vec![x, struct_of(&[], vec![], n)], n);
            let oc = rows_of(&["in", "none"], &[c.clone(), rows_of(&[], &[], n)], n);
            odd.push(Tab { col: rows_of(&["o"], &[oc], n), batches: vec![struct_of(&["o"], vec![outer], n)], desc: format!("nested:{e}") });
        }
        odd.push(Tab { col: rows_of(&["x", "x"], &[c.clone(), c.clone()], n), batches: vec![struct_of(&["x", "x"], vec![plain(&c), plain(&c)], n)], desc: "samename".into() });
    }
    for (n, per) in [(3000usize, 3000usize), (3000, 1000), (5000, 37), (300, 1), (70_000, 70_000), (140_000, 70_001)] {
        let a = Col::new(prim(PType::I32, true), (0..n as i128).map(|i| if i % 11 == 3 { V::Null } else { V::of_int(PType::I32, i) }).collect());
        let s = Col::new(DType::Utf8(nn(true)), (0..n).map(|i| if i % 13 == 5 { V::Null } else { V::s(&format!("s{}", i % 1000)) }).collect());
        let mut batches = vec![];
        let mut at = 0;
        while at < n {
            let e = (at + per).min(n);
            batches.push(struct_of(&["a", "s"], vec![plain(&a.slice(at, e)), plain(&s.slice(at, e))], e - at));
            at = e;
        }
        odd.push(Tab { col: rows_of(&["a", "s"], &[a, s], n), batches, desc: format!("{n}rows by {per}") });
    }
    odd.par_iter().for_each(|t| {
        ctx.tag(t.desc.split(':').next().unwrap());
        let big = t.col.len() > 100;
        read_all_ways(ctx, t, if big { &[37, 1000, 65536] } else { &SIZES }, true)
    });
    ctx.bound("types around the size that is read of a file at first (8 MiB), in steps of 8 or 16 bytes");
    (0..if ctx.thorough { 128usize } else { 48 }).into_par_iter().for_each(|k| {
        let l = 8 * 1024 * 1024 + 16 - k * if ctx.thorough { 8 } else { 16 };
        let name = "n".repeat(l);
        let c = Col::new(prim(PType::I32, true), [Some(1), None, Some(3)].into_iter().map(|x| x.map_or(V::Null, |x| V::of_int(PType::I32, x))).collect());
        let names = [name.as_str(), "m"];
        let t = Tab { col: rows_of(&names, &[c.clone(), c.clone()], 3), batches: vec![struct_of(&names, vec![plain(&c), plain(&c)], 3)], desc: format!("name of {l} bytes") };
        read_all_ways(ctx, &t, &[65536], false);
    });
    ctx.bound("more chunks in a column than fit 16 bits");
    {
        let n = 65_540usize;
        let one: Vec<Array> = (0..n).map(|i| plain(&Col::new(prim(PType::U32, false), vec![V::of_int(PType::U32, i as i128)]))).collect();
        let ch = ChunkedArray::try_new(one, prim(PType::U32, false)).expect("chunks").into_array();
        let c = Col::new(prim(PType::U32, false), (0..n).map(|i| V::of_int(PType::U32, i as i128)).collect());
        let t = Tab { col: rows_of(&["i"], &[c], n), batches: vec![struct_of(&["i"], vec![ch], n)], desc: "65540chunks".into() };
        read_all_ways(ctx, &t, &[1000], false);
    }
    ctx.bound("tables with nulls among their rows: read back exactly, or refused; a known finding excludes what becomes of the null rows themselves");
    {
        let f = struct_fam(true);
        for c in small_cols(&f, 0, 3) {
            for (e, a) in encs_of(&c, Rich::Core) {
                let t = Tab { col: c.clone(), batches: vec![a], desc: format!("nullable:{e}:{}", c.desc()) };
                if !c.vals.contains(&V::Null) {
                    ctx.check(|| format!("nullable|{}", t.desc), || match t.bytes() {
                        // batches that are not struct arrays
                        Err(m) if m.contains("incorrect encoding") => Ok(ctx.refuse("encoding of the batch")),
                        r => rows_eq(&read_bytes(&r?, &Req::b(2), 100)?, &t.col),
                    });
                    continue;
                }
                let mut read = None;
                ctx.check(
                    || format!("nullrows|{}", t.desc),
                    || match t.bytes() {
                        Err(_) => Ok(ctx.refuse("nullable table")),
                        Ok(b) => {
                            let g = read_bytes(&b, &Req::b(2), 100)?;
                            read = Some(g.clone());
                            rows_eq(&g, &t.col)
                        }
                    },
                );
                // whatever became of the null rows, the others are where they were
                ctx.check(
                    || format!("nonnull|{}", t.desc),
                    || {
                        let Some(g) = &read else { return Ok(()) };
                        let a = es(ChunkedArray::try_new(g.1.clone(), t.col.dtype.clone()))?.into_array();
                        if a.len() != t.col.len() {
                            return Err(format!("{} rows instead of {}", a.len(), t.col.len()));
                        }
                        for (i, v) in t.col.vals.iter().enumerate() {
                            if *v != V::Null {
                                same(&es(slice(&a, i, i + 1))?, &t.col.slice(i, i + 1)).map_err(|m| format!("row {i}: {m}"))?;
                            }
                        }
                        Ok(())
                    },
                );
            }
        }
    }
    ctx.bound("a read batch size of zero is refused");
    for t in tables(&int_mid(PType::I32, true), 2, Rich::Core) {
        ctx.check(
            || format!("zero|{}", t.desc),
            || match read_bytes(&t.bytes()?, &Req::b(0), 100) {
                Err(_) => Ok(()),
                Ok(r) => rows_eq(&r, &t.col),
            },
        );
    }
}

// C18 -------------------------------------------------------------------------------------------

const NAMES: [&str; 4] = ["a", "b", "c", "d"];

fn table4() -> Vec<Col> {
    let i = |x: i128| V::of_int(PType::I32, x);
    vec![
        Col::new(prim(PType::I32, true), vec![i(1), V::Null, i(2), i(3), i(2), i(1), V::Null, i(3)]),
        Col::new(DType::Utf8(nn(false)), ["x", "y", "x", "z", "longer than twelve bytes", "y", "x", "z"].iter().map(|s| V::s(s)).collect()),
        Col::new(DType::Bool(nn(true)), vec![V::B(true), V::B(false), V::Null, V::B(true), V::B(false), V::B(true), V::Null, V::B(false)]),
        Col::new(prim(PType::I32, false), [2, 2, 1, 3, 3, 1, 0, 0].iter().map(|x| i(*x)).collect()),
    ]
}

/// The predicates of depth one over the four columns.
pub fn leaves(by_pos: bool) -> Vec<E> {
    let i = |x: i128| E::Lit(V::of_int(PType::I32, x), prim(PType::I32, false));
    let b = |v: V| E::Lit(v, DType::Bool(nn(true)));
    let c = |k: usize| E::Col(k, by_pos);
    let mut v = vec![];
    for o in CMPS {
        v.push(bin(o, c(0), i(2)));
        v.push(bin(o, i(2), c(3)));
        v.push(bin(o, c(0), c(3)));
        v.push(bin(o, c(1), E::Lit(V::s("y"), DType::Utf8(nn(false)))));
    }
    v.push(bin(Operator::Eq, c(0), E::Lit(V::Null, prim(PType::I32, true))));
    v.push(bin(Operator::Eq, c(2), b(V::B(true))));
    v.push(bin(Operator::Eq, c(3), i(77)));
    v.push(c(2));
    v.push(b(V::B(true)));
    v.push(b(V::B(false)));
    v.push(b(V::Null));
    v
}

pub fn projections(by_pos: bool) -> Vec<Vec<usize>> {
    let mut p = vec![vec![], vec![0], vec![1], vec![2], vec![3], vec![0, 1, 2, 3], vec![3, 2, 1, 0], vec![1, 3], vec![3, 0], vec![2, 2]];
    if !by_pos {
        p.push(vec![1, 0, 1]);
    }
    p
}
fn fields(p: &[usize], by_pos: bool) -> Projection {
    Projection::Flat(p.iter().enumerate().map(|(k, i)| E::field(&NAMES, *i, by_pos ^ (k == 2))).collect())
}
fn project_cols(cols: &[Col], p: &[usize], keep: &[usize]) -> Col {
    let cs: Vec<Col> = p.iter().map(|i| cols[*i].take(keep)).collect();
    let ns: Vec<&str> = p.iter().map(|i| NAMES[*i]).collect();
    rows_of(&ns, &cs, keep.len())
}

/// The columns written in batches, each column of a batch in its own chunks.
fn lay_out(cols: &[Col], which: usize) -> Option<Vec<Array>> {
    let n = cols[0].len();
    let mk = |cs: Vec<Array>, n: usize| struct_of(&NAMES[..cols.len()], cs, n);
    let part = |a: usize, b: usize| mk(cols.iter().map(|c| plain(&c.slice(a, b))).collect(), b - a);
    let h = n / 2;
    Some(match which {
        0 => vec![part(0, n)],
        1 => vec![part(0, h), part(h, n)],
        2 => (0..n).map(|i| part(i, i + 1)).collect(),
        3 => vec![part(0, 0), part(0, 1.min(n)), part(1.min(n), 1.min(n)), part(1.min(n), n)],
        // each column cut elsewhere
        4 => {
            let cs: Option<Vec<Array>> = cols
                .iter()
                .enumerate()
                .map(|(k, c)| {
                    let cuts = [vec![n], vec![h, n], vec![1.min(n), 1.min(n), n], (0..=n).collect()];
                    chunked_with(c, &cuts[k % 4], |_, x| Ok(plain(x))).ok()
                })
                .collect();
            vec![mk(cs?, n)]
        }
        // every column in a different encoding
        _ => {
            let cs: Vec<Array> = cols
                .iter()
                .enumerate()
                .map(|(k, c)| {
                    let e = encs_of(c, Rich::More);
                    e[(which * 3 + k * 5) % e.len()].1.clone()
                })
                .collect();
            vec![mk(cs, n)]
        }
    })
}

fn push(ctx: &Ctx, key: impl FnOnce() -> String, bytes: &[u8], q: &Req, want: &Col) {
    ctx.check(key, || rows_eq(&read_bytes(bytes, q, 64)?, want));
}

pub fn c18(ctx: &Ctx) {
    let cols = table4();
    let n = cols[0].len();
    let row = |i: usize| -> Vec<V> { cols.iter().map(|c| c.vals[i].clone()).collect() };
    let rows: Vec<Vec<V>> = (0..n).map(row).collect();
    let lays = if ctx.thorough { 12 } else { 8 };
    let files: Vec<Vec<u8>> = (0..lays)
        .filter_map(|w| {
            let t = Tab { col: rows_of(&NAMES, &cols, n), batches: lay_out(&cols, w)?, desc: format!("layout{w}") };
            let mut b = None;
            ctx.check(|| format!("write|{}", t.desc), || t.bytes().map(|x| b = Some(x)));
            b
        })
        .collect();
    ctx.bound(format!("an 8 row table of 4 columns in {} layouts (splits, empty batches, columns chunked differently, encodings), batch sizes 1, 3, 5 and all; filters: each of 31 predicates (comparisons of columns with literals and columns, boolean columns, constant predicates) and every and/or of two of them, columns referred to by name or position; every one of the projections {:?} and the whole table", files.len(), projections(false)));
    let mut filters: Vec<(E, bool)> = vec![];
    for by_pos in [false, true] {
        let l = leaves(by_pos);
        for x in &l {
            filters.push((x.clone(), by_pos));
        }
        for (i, x) in l.iter().enumerate() {
            for (j, y) in l.iter().enumerate() {
                if by_pos && !ctx.thorough && (i * 5 + j) % 7 != 0 {
                    continue;
                }
                for o in [Operator::And, Operator::Or] {
                    filters.push((bin(o, x.clone(), y.clone()), by_pos));
                }
            }
        }
        // three conjuncts, nested either way, and mixtures
        for (i, x) in l.iter().enumerate() {
            let y = l[(i * 7 + 3) % l.len()].clone();
            let z = l[(i * 11 + 5) % l.len()].clone();
            filters.push((bin(Operator::And, bin(Operator::And, x.clone(), y.clone()), z.clone()), by_pos));
            filters.push((bin(Operator::And, x.clone(), bin(Operator::And, y.clone(), z.clone())), by_pos));
            filters.push((bin(Operator::Or, bin(Operator::And, x.clone(), y.clone()), z.clone()), by_pos));
            filters.push((bin(Operator::And, bin(Operator::Or, x.clone(), y.clone()), z.clone()), by_pos));
            // a column mentioned by position and by name
            let mut mixed = leaves(!by_pos)[(i + 1) % l.len()].clone();
            mixed = bin(Operator::And, x.clone(), mixed);
            filters.push((mixed, by_pos));
        }
    }
    filters.par_iter().enumerate().for_each(|(fi, (f, by_pos))| {
        ctx.state();
        let keep: Vec<usize> = (0..n).filter(|i| f.selects(&rows[*i])).collect();
        let rf = RowFilter::new(f.build(&NAMES));
        ctx.sample(|| f.show(&NAMES));
        ctx.tag(match f {
            E::Bin(Operator::And, ..) => "and",
            E::Bin(Operator::Or, ..) => "or",
            E::Bin(..) => "comparison",
            _ => "bare",
        });
        let deep = matches!(f, E::Bin(Operator::And | Operator::Or, ..));
        for (w, bytes) in files.iter().enumerate() {
            for (bi, bs) in [1usize, 3, 5, 65536].into_iter().enumerate() {
                // pairs of predicates: the layouts and batch sizes rotate
                if deep && !ctx.thorough && (w + bi + fi) % 4 != 0 {
                    continue;
                }
                let q = Req { batch: Some(bs), proj: Projection::All, filter: Some(rf.clone()) };
                push(ctx, || format!("filter|{}|all|layout{w}|{bs}", f.show(&NAMES)), bytes, &q, &project_cols(&cols, &[0, 1, 2, 3], &keep));
                for (pi, p) in projections(*by_pos).into_iter().enumerate() {
                    if deep && !ctx.thorough && (pi + w) % 3 != fi % 3 {
                        continue;
                    }
                    for pos in [false, true] {
                        if pos && deep && !ctx.thorough {
                            continue;
                        }
                        let q = Req { batch: Some(bs), proj: fields(&p, pos), filter: Some(rf.clone()) };
                        push(ctx, || format!("filter|{}|{p:?}{pos}|layout{w}|{bs}", f.show(&NAMES)), bytes, &q, &project_cols(&cols, &p, &keep));
                    }
                }
            }
        }
    });
    ctx.bound("every projection to up to 3 columns (4 when thorough), repetitions included, by name and by position, without a filter; batch sizes 1, 3, 5 and all");
    let all: Vec<usize> = (0..n).collect();
    let projs: Vec<Vec<usize>> = (0..=if ctx.thorough { 4 } else { 3 }).flat_map(|k| seqs(&[0usize, 1, 2, 3], k)).collect();
    projs.par_iter().for_each(|p| {
        ctx.state();
        for (w, bytes) in files.iter().enumerate() {
            for bs in [1usize, 3, 5, 65536] {
                for pos in [false, true] {
                    let q = Req { batch: Some(bs), proj: fields(p, pos), filter: None };
                    push(ctx, || format!("project|{p:?}{pos}|layout{w}|{bs}"), bytes, &q, &project_cols(&cols, p, &all));
                }
            }
        }
    });
    ctx.bound("projections and filters of a column that does not exist are refused");
    for (w, bytes) in files.iter().enumerate() {
        for bad in [Field::Name("nope".into()), Field::Index(4), Field::Index(usize::MAX)] {
            for (k, q) in [
                Req { batch: Some(3), proj: Projection::Flat(vec![bad.clone()]), filter: None },
                Req { batch: Some(3), proj: Projection::Flat(vec![Field::Index(0), bad.clone()]), filter: None },
                Req {
                    batch: Some(3),
                    proj: Projection::All,
                    filter: Some(RowFilter::new(Arc::new(vortex_expr::BinaryExpr::new(
                        Arc::new(vortex_expr::Column::new(bad.clone())),
                        Operator::Eq,
                        Arc::new(vortex_expr::Literal::new(1i32.into())),
                    )))),
                },
            ]
            .into_iter()
            .enumerate()
            {
                ctx.check(
                    || format!("missing|{bad}|{k}|layout{w}"),
                    || match read_bytes(bytes, &q, 64) {
                        Err(m) if m.starts_with("error") => Ok(()),
                        Err(m) => Err(m),
                        Ok(_) => Err("accepted".into()),
                    },
                );
            }
        }
    }
    let m = if ctx.thorough { 6 } else { 5 };
    ctx.bound(format!("every pattern of matching, not matching and null over {m} rows, every split of the filtered column and of another into up to 3 chunks (the same for both, or one whole), every batch size up to {}; the filtered column projected or not", m + 1));
    let d = prim(PType::I32, true);
    let pats = seqs(&[V::of_int(PType::I32, 0), V::of_int(PType::I32, 1), V::Null], m);
    let f = bin(Operator::Eq, E::Col(0, false), E::Lit(V::of_int(PType::I32, 1), prim(PType::I32, false)));
    let rf = RowFilter::new(f.build(&NAMES));
    let other = Col::new(prim(PType::U64, false), (0..m).map(|i| V::of_int(PType::U64, 100 + i as i128)).collect());
    let cuts = chunk_cuts(m);
    pats.par_iter().enumerate().for_each(|(pi, p)| {
        let c = Col::new(d.clone(), p.clone());
        let keep: Vec<usize> = (0..m).filter(|i| p[*i] == V::of_int(PType::I32, 1)).collect();
        for (k, cut) in cuts.iter().enumerate() {
            for mode in 0..3 {
                if !ctx.thorough && mode > 0 && (k + pi) % 3 != 0 {
                    continue;
                }
                let one = |c: &Col, on: bool| if on { chunked_with(c, cut, |_, x| Ok(plain(x))).ok() } else { Some(plain(c)) };
                let (Some(x), Some(y)) = (one(&c, mode != 1), one(&other, mode != 2)) else { continue };
                let two = [c.clone(), other.clone()];
                let t = Tab { col: rows_of(&["a", "b"], &two, m), batches: vec![struct_of(&["a", "b"], vec![x, y], m)], desc: String::new() };
                let Ok(bytes) = t.bytes() else {
                    ctx.check(|| format!("pattern-write|{p:?}|{cut:?}"), || Err("not written".into()));
                    continue;
                };
                ctx.state();
                for bs in 1..=m + 1 {
                    for pr in [vec![0, 1], vec![1], vec![0], vec![]] {
                        let q = Req { batch: Some(bs), proj: fields(&pr, false), filter: Some(rf.clone()) };
                        push(ctx, || format!("pattern|{p:?}|{cut:?}|{mode}|{pr:?}|{bs}"), &bytes, &q, &project_cols(&two, &pr, &keep));
                    }
                }
            }
        }
    });
    ctx.bound("filters over 3000 rows in batches of 1000 and 7, with runs of matching rows starting and ending around batch boundaries");
    let big = 3000usize;
    let bc = Col::new(d.clone(), (0..big as i128).map(|i| if i % 17 == 5 { V::Null } else { V::of_int(PType::I32, i) }).collect());
    let bo = Col::new(DType::Utf8(nn(true)), (0..big).map(|i| if i % 19 == 5 { V::Null } else { V::s(&format!("row {i}")) }).collect());
    let t = Tab {
        col: rows_of(&["a", "b"], &[bc.clone(), bo.clone()], big),
        batches: (0..6).map(|k| struct_of(&["a", "b"], vec![plain(&bc.slice(k * 500, k * 500 + 500)), plain(&bo.slice(k * 500, k * 500 + 500))], 500)).collect(),
        desc: "3000".into(),
    };
    let bytes = t.bytes().unwrap_or_default();
    let edges = [0i128, 1, 499, 500, 999, 1000, 1001, 2047, 2048, 2999, 3000];
    let ranges: Vec<(i128, i128)> = edges.iter().flat_map(|a| edges.iter().map(move |b| (*a, *b))).filter(|(a, b)| a <= b).collect();
    ranges.par_iter().for_each(|(a, b)| {
        ctx.state();
        let l = |x: i128| E::Lit(V::of_int(PType::I32, x), prim(PType::I32, false));
        let f = bin(Operator::And, bin(Operator::Gte, E::Col(0, false), l(*a)), bin(Operator::Lt, E::Col(0, false), l(*b)));
        let keep: Vec<usize> = (*a as usize..*b as usize).filter(|i| !bc.vals[*i].is_null()).collect();
        for bs in [7usize, 1000, 1024, 65536] {
            let q = Req { batch: Some(bs), proj: fields(&[1], false), filter: Some(RowFilter::new(f.build(&NAMES))) };
            ctx.check(|| format!("range|{a}..{b}|{bs}"), || rows_eq(&read_bytes(&bytes, &q, 1000)?, &project_cols(&[bc.clone(), bo.clone()], &[1], &keep)));
        }
    });
}
