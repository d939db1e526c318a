//! C15 wire format, C16 stream format.
use std::future::Future;
use std::io;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Wake, Waker};

use bytes::{Buf, BytesMut};
use futures_util::StreamExt;
use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::unary::{fill_forward, scalar_at, subtract_scalar, try_cast};
use vortex::compute::{and, compare, filter, or, search_sorted, slice, take, Operator, SearchSortedSide};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::stream::ArrayStreamAdapter;
use vortex::{Array, ArrayDType, Context, IntoArray, IntoArrayVariant};
use vortex_dtype::{DType, PType};
use vortex_scalar::ScalarValue;
use vortex_serde::io::{FuturesAdapter, TokioAdapter, VortexRead, VortexWrite};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_core::{far_types, long_subset, run_ops_ok, small};
use crate::p_stats::{stat_ok, STATS};
use crate::report::{attempt, Ctx};

pub fn all_context() -> Arc<Context> {
    // everything the samplers know, plus the default encodings
    vortex_sampling_compressor::ALL_COMPRESSORS_CONTEXT.clone()
}

// a minimal executor --------------------------------------------------------------------------

#[derive(Default)]
pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Relaxed);
    }
}

/// Run a future to completion on this thread. A pending result without a wake-up is a hang, and so are
/// more polls than `limit`.
pub fn drive<F: Future>(f: F, limit: usize) -> Result<F::Output, String> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Cx::from_waker(&waker);
    let mut f = pin!(f);
    for _ in 0..limit {
        flag.0.store(false, Relaxed);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(r) => return Ok(r),
            Poll::Pending => {
                if !flag.0.load(Relaxed) {
                    return Err("hang: pending without a wake-up".into());
                }
            }
        }
    }
    Err(format!("hang: still pending after {limit} polls"))
}
pub const LIMIT: usize = 1_000_000;

pub fn vec_stream(dtype: DType, parts: Vec<Array>) -> impl vortex::stream::ArrayStream + Unpin {
    ArrayStreamAdapter::new(dtype, futures_util::stream::iter(parts.into_iter().map(Ok)))
}

/// Several arrays, each of several batches, in one stream.
pub async fn write_stream_to<W: VortexWrite>(w: W, arrays: &[(DType, Vec<Array>)]) -> Result<W, String> {
    let mut wr = StreamArrayWriter::new(w);
    for (d, parts) in arrays {
        wr = es(wr.write_array_stream(vec_stream(d.clone(), parts.clone())).await)?;
    }
    Ok(wr.into_inner())
}
pub fn write_stream(arrays: &[(DType, Vec<Array>)]) -> Result<Vec<u8>, String> {
    drive(write_stream_to(vec![], arrays), LIMIT)?
}
pub fn write_one(a: &Array) -> Result<Vec<u8>, String> {
    write_stream(&[(a.dtype().clone(), vec![a.clone()])])
}

/// The batches of the first array; at most `cap` of them.
pub async fn read_stream_from<R: VortexRead>(r: R, cap: usize) -> Result<(DType, Vec<Array>), String> {
    let rd = es(StreamArrayReader::try_new(r, all_context()).await)?;
    let rd = es(rd.load_dtype().await)?;
    let st = rd.into_array_stream();
    let d = vortex::stream::ArrayStream::dtype(&st).clone();
    let mut st = pin!(st);
    let mut v = vec![];
    while let Some(b) = st.next().await {
        v.push(es(b)?);
        if v.len() > cap {
            return Err(format!("more than {cap} batches"));
        }
    }
    Ok((d, v))
}
/// The bytes as a reader whose memory starts `off` bytes from an aligned address.
pub fn at_offset(bytes: &[u8], off: usize) -> BytesMut {
    let mut b = BytesMut::with_capacity(bytes.len() + off + 64);
    let pad = (64 - b.as_ptr() as usize % 64) % 64 + off;
    b.resize(pad, 0);
    b.extend_from_slice(bytes);
    b.advance(pad);
    b
}
pub fn read_one(bytes: &[u8], off: usize) -> Result<Array, String> {
    let (_, mut v) = drive(read_stream_from(at_offset(bytes, off), 1), LIMIT)??;
    if v.len() != 1 {
        return Err(format!("{} batches instead of 1", v.len()));
    }
    Ok(v.pop().unwrap())
}

// C15 -------------------------------------------------------------------------------------------

fn warm(a: &Array) {
    for s in STATS {
        let _ = attempt(|| Ok(a.statistics().compute(s)));
    }
    for k in a.children() {
        warm(&k);
    }
}

pub fn tree(a: &Array) -> String {
    let kids: Vec<String> = a.children().iter().map(tree).collect();
    format!("{}:{}:{}[{}]", a.encoding().id(), a.dtype(), a.len(), kids.join(","))
}

fn sval(v: &ScalarValue) -> String {
    match v {
        ScalarValue::Buffer(b) => format!("{:?}", b.as_slice()),
        ScalarValue::BufferString(b) => format!("{:?}", b.as_str()),
        ScalarValue::List(l) => format!("{:?}", l.iter().map(sval).collect::<Vec<_>>()),
        ScalarValue::Primitive(p) if p.ptype().is_int() => format!("{:?}", from_sv(v, &prim(p.ptype(), false))),
        v => format!("{v:?}"),
    }
}
/// Every statistic the read-back array carries is the one the original carried when it was written.
fn stats_carried(view: &Array, orig: &Array) -> Result<(), String> {
    for s in STATS {
        if let Some(v) = view.statistics().get(s) {
            match orig.statistics().get(s) {
                None => return Err(format!("statistic {s} of {} appeared", orig.encoding().id())),
                Some(w) => {
                    let (x, y) = (sval(v.value()), sval(w.value()));
                    if x != y || v.dtype().as_nonnullable() != w.dtype().as_nonnullable() && matches!(s, Stat::Min | Stat::Max) {
                        return Err(format!("statistic {s} of {} is {x} ({}) instead of {y} ({})", orig.encoding().id(), v.dtype(), w.dtype()));
                    }
                }
            }
        }
    }
    Ok(())
}

type R = Result<String, String>;
fn show(r: Result<Array, String>) -> R {
    let a = r?;
    Ok(format!("{:?}", observe(&a)?.vals))
}
/// What each operation gives on an array holding `c`, as text.
fn outcomes(a: &Array, c: &Col, f: &mut dyn FnMut(&str, &dyn Fn(&Array) -> R) -> bool) {
    let n = c.len();
    let mut go = |name: &str, g: &dyn Fn(&Array) -> R| f(name, g);
    for i in 0..n {
        go(&format!("scalar_at {i}"), &|a| es(scalar_at(a, i)).and_then(|s| Ok(format!("{:?}", observe_scalar(&s)?))));
    }
    go("scalar_at end", &|a| es(scalar_at(a, n)).and_then(|s| Ok(format!("{:?}", observe_scalar(&s)?))));
    for x in 0..=n {
        for y in x..=n {
            go(&format!("slice {x}..{y}"), &|a| show(es(slice(a, x, y))));
        }
    }
    let mut ixs: Vec<Vec<usize>> = vec![vec![], (0..n).rev().collect()];
    if n > 0 {
        ixs.push(vec![n - 1, n - 1, 0]);
    }
    for ix in ixs {
        for how in [Ix::P(PType::U64), Ix::P(PType::U8), Ix::BitPacked] {
            if let Some(i) = index_array(&ix, how) {
                go(&format!("take {ix:?} {how:?}"), &|a| show(es(take(a, &i))));
            }
        }
    }
    for m in [(0..n).map(|i| i % 2 == 0).collect::<Vec<_>>(), vec![true; n], vec![false; n], (0..n).map(|i| i % 2 == 1).collect()] {
        for how in [Mk::Plain, Mk::RunEnd] {
            if let Some(k) = mask_array(&m, how) {
                go(&format!("filter {m:?} {how:?}"), &|a| show(es(filter(a, &k))));
            }
        }
    }
    let first = c.vals.iter().find(|v| !v.is_null());
    if !matches!(c.dtype, DType::Null | DType::Struct(..)) {
        if let Some(k) = first {
            let s = scalar_of(k, &c.dtype);
            for op in [Operator::Eq, Operator::Lt, Operator::Gte] {
                go(&format!("compare {op} const"), &|a| show(es(compare(a, ConstantArray::new(s.clone(), n).into_array(), op))));
            }
            if matches!(c.dtype, DType::Primitive(..)) {
                go("subtract", &|a| show(es(subtract_scalar(a, &s))));
            }
            for side in [SearchSortedSide::Left, SearchSortedSide::Right] {
                if let (DType::Primitive(..) | DType::Utf8(_) | DType::Bool(_), true) = (&c.dtype, sorted_nl(c)) {
                    let s = scalar_of(k, &c.dtype.as_nonnullable());
                    go(&format!("search {side}"), &|a| es(search_sorted(a, s.clone(), side)).map(|r| r.to_string()));
                }
            }
        }
        go("compare self", &|a| show(es(compare(a, a, Operator::Eq))));
    }
    if let DType::Primitive(p, nu) = &c.dtype {
        let to = if *p == PType::I64 { PType::U64 } else { PType::I64 };
        go("cast", &|a| show(es(try_cast(a, &DType::Primitive(to, *nu)))));
    }
    if let DType::Bool(_) = &c.dtype {
        go("and", &|a| show(es(and(a, a))));
        go("or", &|a| show(es(or(a, a))));
    }
    go("fill_forward", &|a| show(es(fill_forward(a))));
    go("validity", &|a| {
        let v = a.with_dyn(|d| d.logical_validity());
        Ok(format!("{:?}", observe(&es(v.into_array().into_bool())?.into_array())?.vals))
    });
    go("is_valid", &|a| Ok(format!("{:?}", (0..n).map(|i| a.with_dyn(|d| d.is_valid(i))).collect::<Vec<_>>())));
    for s in STATS {
        // carried values may differ within what a statistic allows: each is judged on its own
        let c = c.clone();
        let chunky = tree(a).contains("chunked");
        go(&format!("stat {s}"), &move |a| {
            if let Some(v) = a.statistics().compute(s) {
                stat_ok(&c, s, &v, chunky)?;
            }
            Ok(String::new())
        });
    }
}
fn sorted_nl(c: &Col) -> bool {
    c.vals.windows(2).all(|w| vcmp_nl(&w[0], &w[1]).is_le()) && !c.vals.iter().any(|v| v.is_nan())
}

fn view_ok(orig: &Array, view: &Array, c: &Col) -> Result<(), String> {
    if view.dtype() != orig.dtype() {
        return Err(format!("type {} instead of {}", view.dtype(), orig.dtype()));
    }
    if view.len() != orig.len() {
        return Err(format!("length {} instead of {}", view.len(), orig.len()));
    }
    same(view, c)?;
    let (t, w) = (tree(view), tree(orig));
    if t != w {
        return Err(format!("encodings {t} instead of {w}"));
    }
    for (v, o) in view.depth_first_traversal().zip(orig.depth_first_traversal()) {
        stats_carried(&v, &o)?;
    }
    Ok(())
}

fn wire(ctx: &Ctx, s: &Subject, pre: &[Op], a: &Array, c: &Col, off: usize, warmth: &str, ops: bool) {
    let tag = format!("[{}]+{off}{warmth}", path(pre));
    let mut view = None;
    ctx.check(
        || s.key("roundtrip", &tag),
        || {
            let bytes = write_one(a)?;
            if bytes.len() % 64 != 0 {
                return Err(format!("{} bytes is not a multiple of the alignment", bytes.len()));
            }
            let v = read_one(&bytes, off)?;
            view_ok(a, &v, c)?;
            view = Some(v);
            Ok(())
        },
    );
    let Some(view) = view else { return };
    ctx.check(
        || s.key("again", &tag),
        || {
            let v = read_one(&write_one(&view)?, off)?;
            view_ok(&view, &v, c)
        },
    );
    if !ops {
        return;
    }
    let mut run = |name: &str, g: &dyn Fn(&Array) -> R| {
        ctx.check(
            || s.key(name, &tag),
            || {
                let want = attempt(|| g(a));
                let got = attempt(|| g(&view));
                match (&want, &got) {
                    (Ok(w), Ok(g)) if w == g => Ok(()),
                    (Err(_), Err(m)) if !m.starts_with("panic") || want == got => Ok(()),
                    (Err(w), Err(g)) => Err(format!("{g} instead of {w}")),
                    (Ok(w), Ok(g)) => Err(format!("{g} instead of {w}")),
                    (Ok(w), Err(g)) => Err(format!("{g} instead of {w}")),
                    (Err(w), Ok(g)) => Err(format!("{g} instead of {w}")),
                }
            },
        );
        true
    };
    outcomes(&view, c, &mut run);
    // operations on what operations on the read-back array give
    for pre2 in [
        vec![Op::Slice(c.len().min(1), c.len())],
        vec![Op::Take((0..c.len()).rev().collect(), Ix::P(PType::U64))],
        vec![Op::Filter((0..c.len()).map(|i| i != 1).collect(), Mk::Plain)],
    ] {
        let sv = Subject { col: Arc::new(c.clone()), enc: s.enc.clone(), arr: view.clone() };
        if let Some((b, d)) = run_ops_ok(&sv, &pre2) {
            ctx.check(
                || s.key("rewrite", &format!("{tag}>{}", path(&pre2))),
                || {
                    let v = read_one(&write_one(&b)?, off)?;
                    view_ok(&b, &v, &d)?;
                    for i in 0..d.len() {
                        crate::p_core::scalar_is(&v, &d, i)?;
                    }
                    Ok(())
                },
            );
        }
    }
}

pub fn c15(ctx: &Ctx) {
    let hi = if ctx.thorough { 3 } else { 2 };
    ctx.bound(format!("columns of length 0..={hi}, every encoding and nesting, cold and with all statistics of all parts: written, read back, every operation on the read-back array against the same operation on the original; written and read again; results of operations on the read-back array written and read"));
    let f = |s: &Subject| {
        wire(ctx, s, &[], &s.arr, &s.col, 0, "", true);
        let n = s.col.len();
        for pre in [vec![Op::Slice(1.min(n), n)], vec![Op::Slice(0, n.saturating_sub(1))], vec![Op::Take((0..n).rev().collect(), Ix::P(PType::U64))], vec![Op::Filter((0..n).map(|i| i % 2 == 1).collect(), Mk::Plain)]] {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                wire(ctx, s, &pre, &a, &c, 0, "", ctx.thorough);
            }
        }
        warm(&s.arr);
        wire(ctx, s, &[], &s.arr, &s.col, 0, "w", true);
        if let Some((a, c)) = run_ops_ok(s, &[Op::Slice(1.min(n), n)]) {
            warm(&a);
            wire(ctx, s, &[Op::Slice(1.min(n), n)], &a, &c, 0, "w", true);
        }
    };
    explore(ctx, small(ctx.thorough, 0, hi), Rich::Full, f);
    let one: Vec<Col> = all_fams(true).iter().map(|f| {
        let mut v = f.alpha.clone();
        if f.dtype.is_nullable() {
            v.insert(1.min(v.len()), V::Null);
        }
        Col::new(f.dtype.clone(), v)
    }).collect();
    ctx.bound("one column per family, every encoding, memory at every offset 1..=8 and 16, 32 from an aligned address");
    explore(ctx, one, Rich::Full, |s| {
        for off in [1, 2, 3, 4, 5, 6, 7, 8, 16, 32] {
            wire(ctx, s, &[], &s.arr, &s.col, off, "", off == 1 || off == 4 || off == 8);
        }
    });
    let cols = long_subset(ctx, &[PType::U16, PType::I32, PType::F64], if ctx.thorough { &[1024, 1025, 2049] } else { &[1025] });
    ctx.bound("columns across block boundaries, whole and sliced, every encoding");
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        wire(ctx, s, &[], &s.arr, &s.col, 0, "", false);
        for pre in [vec![Op::Slice(1000, n - 1)], vec![Op::Slice(1, 1024.min(n))]] {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                warm(&a);
                wire(ctx, s, &pre, &a, &c, 0, "w", false);
            }
        }
    });
    ctx.bound("columns of 4100 and 66000 elements, whole and sliced, every encoding");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U16, PType::I64]), ctx.thorough), Rich::Full, |s| {
        let n = s.col.len();
        wire(ctx, s, &[], &s.arr, &s.col, 0, "", false);
        for pre in [vec![Op::Slice(2500, n)], vec![Op::Slice(1025, n - 1)]] {
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                wire(ctx, s, &pre, &a, &c, 0, "", false);
            }
        }
    });
}

// C16 -------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// complete as far as asked
    All,
    /// complete with at most this many bytes
    Short(usize),
    /// not ready: the task is woken at once
    Pending,
    /// fail
    Err(io::ErrorKind),
    /// end of input
    Eof,
}

/// A byte source whose every poll is decided by a plan: the deviations listed, otherwise the default.
pub struct Sched {
    pub data: Arc<[u8]>,
    pub pos: usize,
    pub polls: usize,
    pub plan: Vec<(usize, Act)>,
    pub rest: Act,
    pub seen: Arc<std::sync::atomic::AtomicUsize>,
}
impl Sched {
    pub fn new(data: &[u8], plan: Vec<(usize, Act)>, rest: Act) -> Sched {
        Sched { data: data.into(), pos: 0, polls: 0, plan, rest, seen: Default::default() }
    }
    fn step(&mut self, cx: &mut Cx<'_>, want: usize) -> Poll<io::Result<&[u8]>> {
        let k = self.polls;
        self.polls += 1;
        self.seen.store(self.polls, Relaxed);
        let act = self.plan.iter().find(|p| p.0 == k).map(|p| p.1).unwrap_or(self.rest);
        let left = self.data.len() - self.pos;
        let n = match act {
            Act::All => want.min(left),
            Act::Short(n) => want.min(left).min(n),
            Act::Eof => 0,
            Act::Pending => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Act::Err(k) => return Poll::Ready(Err(io::Error::new(k, "injected"))),
        };
        let r = &self.data[self.pos..self.pos + n];
        self.pos += n;
        Poll::Ready(Ok(r))
    }
}
impl futures_util::AsyncRead for Sched {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let want = buf.len();
        match self.step(cx, want) {
            Poll::Ready(Ok(b)) => {
                buf[..b.len()].copy_from_slice(b);
                Poll::Ready(Ok(b.len()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl tokio::io::AsyncRead for Sched {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let want = buf.remaining();
        match self.step(cx, want) {
            Poll::Ready(Ok(b)) => {
                buf.put_slice(b);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

pub struct Batches {
    pub dtype: DType,
    pub parts: Vec<(Array, Col)>,
    pub pages: Vec<Vec<u8>>,
    pub desc: String,
}
impl Batches {
    pub fn bytes(&self) -> Result<Vec<u8>, String> {
        drive(
            async {
                let mut w = StreamArrayWriter::new(vec![]);
                w = es(w.write_array_stream(vec_stream(self.dtype.clone(), self.parts.iter().map(|p| p.0.clone()).collect())).await)?;
                for p in &self.pages {
                    w = es(w.write_page(vortex_buffer::Buffer::from(bytes::Bytes::from(p.clone()))).await)?;
                }
                // the positions the writer reports
                let lay = w.array_layouts()[0].clone();
                if lay.chunks.row_offsets.len() != self.parts.len() + 1 || lay.chunks.byte_offsets.len() != self.parts.len() + 1 {
                    return Err("layout does not list every batch".to_string());
                }
                let mut row = 0;
                for (k, p) in self.parts.iter().enumerate() {
                    row += p.1.len() as u64;
                    if lay.chunks.row_offsets[k + 1] != row {
                        return Err(format!("row offset {} instead of {row}", lay.chunks.row_offsets[k + 1]));
                    }
                }
                if w.page_ranges().len() != self.pages.len() {
                    return Err("page ranges do not list every page".into());
                }
                Ok(w.into_inner())
            },
            LIMIT,
        )?
    }
    /// Read everything and compare; `exact` requires the very batches, in order.
    pub async fn read_back<R: VortexRead>(&self, r: R) -> Result<(), String> {
        let rd = es(StreamArrayReader::try_new(r, all_context()).await)?;
        let mut rd = es(rd.load_dtype().await)?;
        {
            let st = rd.array_stream();
            let d = vortex::stream::ArrayStream::dtype(&st).clone();
            if d != self.dtype {
                return Err(format!("type {d} instead of {}", self.dtype));
            }
            let mut st = pin!(st);
            for (k, (_, c)) in self.parts.iter().enumerate() {
                match st.next().await {
                    None => return Err(format!("only {k} batches of {}", self.parts.len())),
                    Some(b) => {
                        let b = es(b)?;
                        if *b.dtype() != self.dtype {
                            return Err(format!("batch type {} instead of {}", b.dtype(), self.dtype));
                        }
                        same(&b, c).map_err(|m| format!("batch {k}: {m}"))?;
                    }
                }
            }
            if st.next().await.is_some() {
                return Err("an extra batch".into());
            }
        }
        for (k, p) in self.pages.iter().enumerate() {
            match es(rd.next_page().await)? {
                Some(b) if b.as_slice() == p.as_slice() => {}
                Some(b) => return Err(format!("page {k} has {} bytes instead of {}", b.len(), p.len())),
                None => return Err(format!("only {k} pages of {}", self.pages.len())),
            }
        }
        if es(rd.next_page().await)?.is_some() {
            return Err("an extra page".into());
        }
        Ok(())
    }
}

/// Batch sequences of a family: every sequence up to `n` batches over a few columns in rotating encodings.
pub fn sequences(f: &Fam, n: usize, k: usize) -> Vec<Batches> {
    let mut cols: Vec<Col> = vec![Col::new(f.dtype.clone(), vec![])];
    let mut alpha = f.alpha.clone();
    if f.dtype.is_nullable() && f.dtype != DType::Null {
        alpha.insert(0, V::Null);
    }
    if let Some(x) = alpha.first() {
        cols.push(Col::new(f.dtype.clone(), vec![x.clone()]));
    }
    cols.push(Col::new(f.dtype.clone(), alpha.clone()));
    cols.push(Col::new(f.dtype.clone(), alpha.iter().cycle().take(67).cloned().collect()));
    cols.truncate(k);
    let encs: Vec<Vec<(String, Array)>> =
        cols.iter().map(|c| encodings(c, Rich::More).into_iter().filter_map(|(n, r)| r.ok().map(|a| (n, a))).collect()).collect();
    let ids: Vec<usize> = (0..cols.len()).collect();
    let mut out = vec![];
    for len in 0..=n {
        for (q, s) in seqs(&ids, len).into_iter().enumerate() {
            let mut parts = vec![];
            let mut d = vec![];
            for (j, c) in s.iter().enumerate() {
                let e = &encs[*c];
                let (name, a) = &e[(q * 7 + j * 3) % e.len()];
                if a.dtype() != &f.dtype {
                    continue;
                }
                d.push(format!("{name}:{}", cols[*c].len()));
                parts.push((a.clone(), cols[*c].clone()));
            }
            let pages: Vec<Vec<u8>> = match q % 4 {
                0 => vec![],
                1 => vec![vec![1; 5]],
                2 => vec![vec![], vec![2; 64]],
                _ => vec![vec![3; 65], vec![4; 1], vec![]],
            };
            out.push(Batches { dtype: f.dtype.clone(), parts, desc: format!("{}[{}]p{}", f.name, d.join(","), pages.len()), pages });
        }
    }
    out
}

fn read_with(b: &Batches, bytes: &[u8], adapter: &str, plan: &[(usize, Act)], rest: Act) -> Result<usize, String> {
    let s = Sched::new(bytes, plan.to_vec(), rest);
    let seen = s.seen.clone();
    let lim = bytes.len() * 2 + 10_000;
    if adapter == "futures" {
        drive(b.read_back(FuturesAdapter(s)), lim)??;
    } else {
        drive(b.read_back(TokioAdapter(s)), lim)??;
    }
    Ok(seen.load(Relaxed))
}

pub fn c16(ctx: &Ctx) {
    let n = if ctx.thorough { 4 } else { 3 };
    ctx.bound(format!("every sequence of up to {n} batches out of 3 (empty, one element, several) in rotating encodings, followed by 0 to 3 pages, for every type; read from memory at several offsets and through the futures and tokio adapters in pieces of 1, 3, 63, 64 and all bytes"));
    let mut fams = all_fams(ctx.thorough);
    if !ctx.thorough {
        fams.push(wide_fam());
    }
    let every: Vec<Batches> = fams.par_iter().flat_map(|f| sequences(f, n, 3)).collect();
    every.par_iter().for_each(|b| {
        ctx.state();
        ctx.tag(&b.desc.split('[').next().unwrap().to_string());
        ctx.sample(|| b.desc.clone());
        let mut bytes = None;
        ctx.check(|| format!("write|{}", b.desc), || b.bytes().map(|x| bytes = Some(x)));
        let Some(bytes) = bytes else { return };
        for off in [0, 1, 4, 8] {
            ctx.check(|| format!("memory|{}|+{off}", b.desc), || drive(b.read_back(at_offset(&bytes, off)), LIMIT)?);
        }
        ctx.check(|| format!("end|{}", b.desc), || {
            let mut x = bytes.clone();
            x.extend([255; 4]);
            drive(b.read_back(at_offset(&x, 0)), LIMIT)?
        });
        ctx.check(
            || format!("cursor|{}", b.desc),
            || drive(b.read_back(io::Cursor::new(vortex_buffer::Buffer::from(bytes.clone()))), LIMIT)?,
        );
        for ad in ["futures", "tokio"] {
            for rest in [Act::All, Act::Short(1), Act::Short(3), Act::Short(63), Act::Short(64)] {
                ctx.check(|| format!("{ad}|{}|{rest:?}", b.desc), || read_with(b, &bytes, ad, &[], rest).map(|_| ()));
            }
        }
    });
    ctx.bound("the sequences of up to 2 batches of several types: every single poll pending, every single poll short (1 byte, or all but one), every pair of such deviations at most three polls apart (any pair when thorough), and everything pending before every poll");
    let some: Vec<Batches> = fams.iter().filter(|f| ctx.thorough || f.name.len() % 3 == 0).flat_map(|f| sequences(f, 2, 4)).collect();
    some.par_iter().for_each(|b| {
        let Ok(bytes) = b.bytes() else { return };
        ctx.state();
        for ad in ["futures", "tokio"] {
            let Ok(polls) = read_with(b, &bytes, ad, &[], Act::All) else { continue };
            let kinds = [Act::Pending, Act::Short(1), Act::Short(3)];
            let mut plans: Vec<Vec<(usize, Act)>> = vec![];
            for i in 0..=polls {
                for a in kinds {
                    plans.push(vec![(i, a)]);
                    for j in i + 1..=polls {
                        if j > i + 3 && !ctx.thorough {
                            break;
                        }
                        for a2 in kinds {
                            plans.push(vec![(i, a), (j, a2)]);
                        }
                    }
                }
            }
            plans.push((0..polls * 2).step_by(2).map(|i| (i, Act::Pending)).collect());
            for p in plans {
                ctx.check(|| format!("{ad}|{}|{p:?}", b.desc), || read_with(b, &bytes, ad, &p, Act::All).map(|_| ()));
            }
        }
    });
    // large batches: lengths and offsets beyond 16 bits
    ctx.bound("batches of 70000 elements, read in pieces of 1000 bytes");
    let big: Vec<Batches> = [PType::U8, PType::I64]
        .into_iter()
        .map(|p| {
            let c = Col::new(prim(p, true), (0..70000i128).map(|i| if i % 7 == 3 { V::Null } else { V::of_int(p, i % 100) }).collect());
            let one = Col::new(prim(p, true), vec![V::of_int(p, 1)]);
            Batches { dtype: c.dtype.clone(), parts: vec![(plain(&one), one.clone()), (plain(&c), c.clone()), (plain(&one), one)], pages: vec![], desc: format!("{p}x70000") }
        })
        .collect();
    big.par_iter().for_each(|b| {
        ctx.state();
        let mut bytes = None;
        ctx.check(|| format!("write|{}", b.desc), || b.bytes().map(|x| bytes = Some(x)));
        let Some(bytes) = bytes else { return };
        for ad in ["futures", "tokio"] {
            for rest in [Act::All, Act::Short(1000)] {
                ctx.check(|| format!("{ad}|{}|{rest:?}", b.desc), || read_with(b, &bytes, ad, &[], rest).map(|_| ()));
            }
        }
    });
}
