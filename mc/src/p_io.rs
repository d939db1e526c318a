//! C19 row selection, C20 I/O schedules and failures, C21 truncation.
use std::future::Future;
use std::io;
use std::pin::{pin, Pin};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Waker};

use bytes::BytesMut;

use futures_util::StreamExt;
use rayon::prelude::*;
use vortex::array::*;
use vortex::stream::{ArrayStream, ArrayStreamExt};
use vortex::{Array, ArrayDType};
use vortex_dtype::{DType, PType};
use vortex_serde::chunked_reader::ChunkedArrayReader;
use vortex_buffer::io_buf::IoBuf;
use vortex_serde::io::{FuturesAdapter, ObjectStoreExt, TokioAdapter, VortexRead, VortexReadAt, VortexWrite};
use vortex_serde::layouts::{LayoutReaderBuilder, LayoutWriter};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_expr::*;
use crate::p_file::*;
use crate::p_wire::*;
use crate::report::Ctx;

// C19 -------------------------------------------------------------------------------------------

/// A source of rows: its chunks, the stream they are written to and where they are in it.
struct Src {
    col: Col,
    parts: Vec<Array>,
    bytes: Vec<u8>,
    at: vortex_serde::stream_writer::ArrayLayout,
    desc: String,
}
impl Src {
    fn new(col: &Col, parts: Vec<Array>, desc: String) -> Result<Src, String> {
        let d = col.dtype.clone();
        let w = drive(async { es(StreamArrayWriter::new(vec![]).write_array_stream(vec_stream(d, parts.clone())).await) }, LIMIT)??;
        let at = w.array_layouts()[0].clone();
        Ok(Src { col: col.clone(), parts, bytes: w.into_inner(), at, desc })
    }
    fn dtype(&self) -> DType {
        self.col.dtype.clone()
    }
}

async fn collect(st: impl ArrayStream, cap: usize) -> Result<(DType, Vec<Array>), String> {
    let d = st.dtype().clone();
    let mut st = pin!(st);
    let mut v = vec![];
    while let Some(x) = st.next().await {
        v.push(es(x)?);
        if v.len() > cap {
            return Err(format!("more than {cap} batches"));
        }
    }
    Ok((d, v))
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    /// a stream of arrays
    Stream,
    /// the chunks of a chunked array
    Chunked,
    /// a serialized stream
    Serialized,
    /// a serialized stream with known positions of its chunks; how the positions are encoded
    Ranges(u8),
}
const WAYS: [Way; 7] = [Way::Stream, Way::Chunked, Way::Serialized, Way::Ranges(0), Way::Ranges(1), Way::Ranges(2), Way::Ranges(3)];

fn offsets(v: &[u64], how: u8) -> Array {
    let p = if how == 1 { PType::U32 } else if how == 2 { PType::I64 } else { PType::U64 };
    let c = Col::new(prim(p, false), v.iter().map(|x| V::of_int(p, *x as i128)).collect());
    if how == 3 {
        return for_(plain(&Col::new(prim(PType::I64, false), v.iter().map(|x| V::of_int(PType::I64, *x as i128)).collect()))).unwrap_or_else(|_| plain(&c));
    }
    plain(&c)
}

fn select(s: &Src, way: Way, ix: &Array) -> Result<(DType, Vec<Array>), String> {
    let cap = s.parts.len() + 2;
    match way {
        Way::Stream => drive(async { collect(es(vec_stream(s.dtype(), s.parts.clone()).take_rows(ix.clone()))?, cap).await }, LIMIT)?,
        Way::Chunked => {
            let c = es(ChunkedArray::try_new(s.parts.clone(), s.dtype()))?;
            drive(async { collect(es(c.array_stream().take_rows(ix.clone()))?, cap).await }, LIMIT)?
        }
        Way::Serialized => drive(
            async {
                let rd = es(StreamArrayReader::try_new(at_offset(&s.bytes, 0), all_context()).await)?;
                let rd = es(rd.load_dtype().await)?;
                collect(es(rd.into_array_stream().take_rows(ix.clone()))?, cap).await
            },
            LIMIT,
        )?,
        Way::Ranges(how) => drive(
            async {
                let mut rd = es(ChunkedArrayReader::try_new(
                    vortex_buffer::Buffer::from(s.bytes.clone()),
                    all_context(),
                    Arc::new(s.dtype()),
                    offsets(&s.at.chunks.byte_offsets, how),
                    offsets(&s.at.chunks.row_offsets, how),
                ))?;
                let a = es(rd.take_rows(ix).await)?;
                Ok((a.dtype().clone(), vec![a]))
            },
            LIMIT,
        )?,
    }
}

/// All sorted lists of up to `k` out of `n` rows, repetitions included.
fn sorted_lists(n: usize, k: usize) -> Vec<Vec<usize>> {
    let ids: Vec<usize> = (0..n).collect();
    (0..=k).flat_map(|k| seqs(&ids, k)).filter(|s| s.windows(2).all(|w| w[0] <= w[1])).collect()
}

/// Index arrays of other types and encodings for a list.
fn index_kinds(ix: &[usize]) -> Vec<(String, Array)> {
    let mut v: Vec<(String, Array)> = IXS.iter().filter_map(|h| index_array(ix, *h).map(|a| (format!("{h:?}"), a))).collect();
    for p in [PType::U64, PType::I16] {
        if ix.iter().any(|x| *x as i128 > imax(p)) {
            continue;
        }
        let c = Col::new(prim(p, true), ix.iter().map(|x| V::of_int(p, *x as i128)).collect());
        for (e, a) in encs_of(&c, Rich::Core) {
            v.push((format!("{p}?:{e}"), a));
        }
    }
    v
}

fn at(c: &Col, ix: &[usize]) -> Col {
    Col::new(c.dtype.clone(), ix.iter().map(|i| c.vals[*i].clone()).collect())
}

fn sources(ctx: &Ctx, fams: &[Fam], n: usize) -> Vec<Src> {
    fams.par_iter()
        .flat_map(|f| {
            let mut al = f.alpha.clone();
            if f.dtype.is_nullable() && f.dtype != DType::Null {
                al.insert(1.min(al.len()), V::Null);
            }
            let c = Col::new(f.dtype.clone(), al.iter().cycle().take(n).cloned().collect());
            let mut out = vec![];
            let mut cuts = chunk_cuts(n);
            cuts.push(vec![]);
            cuts.push((1..=n).collect());
            for (q, ends) in cuts.iter().enumerate() {
                let mut parts = vec![];
                let mut d = vec![];
                let mut from = 0;
                for (j, to) in ends.iter().enumerate() {
                    let e = encs_of(&c.slice(from, *to), Rich::More);
                    let (name, a) = &e[(q * 5 + j * 3) % e.len()];
                    d.push(format!("{name}:{}", to - from));
                    parts.push(a.clone());
                    from = *to;
                }
                let col = if ends.is_empty() { c.slice(0, 0) } else { c.clone() };
                let desc = format!("{}[{}]", f.name, d.join(","));
                let mut s = None;
                ctx.check(|| format!("write|{desc}"), || Src::new(&col, parts.clone(), desc.clone()).map(|x| s = Some(x)));
                out.extend(s);
            }
            out
        })
        .collect()
}

pub fn c19(ctx: &Ctx) {
    let n = if ctx.thorough { 5 } else { 4 };
    let k = if ctx.thorough { 4 } else { 3 };
    let fams = all_fams(ctx.thorough);
    ctx.bound(format!("columns of {n} rows of every type, in every split into up to 3 chunks, empty ones included, and one chunk per row, in rotating encodings; every sorted list of up to {k} rows, repeated ones included; taken from a stream, a chunked array, a serialized stream and by positions in one, given in 4 forms"));
    let srcs = sources(ctx, &fams, n);
    srcs.par_iter().for_each(|s| {
        ctx.state();
        ctx.tag(s.desc.split('[').next().unwrap());
        ctx.sample(|| s.desc.clone());
        for ix in sorted_lists(s.col.len(), k) {
            let a = index_array(&ix, Ix::P(PType::U64)).unwrap();
            for w in WAYS {
                ctx.check(|| format!("{w:?}|{}|{ix:?}", s.desc), || rows_eq(&select(s, w, &a)?, &at(&s.col, &ix)));
            }
        }
    });
    ctx.bound("the same for integers and strings with the indices in every integer type, nullable without nulls, and in every encoding");
    let few: Vec<&Src> = srcs.iter().filter(|s| s.desc.starts_with("i32?[") || s.desc.starts_with("utf8[") || s.desc.starts_with("bool?[")).collect();
    few.par_iter().for_each(|s| {
        for ix in sorted_lists(s.col.len(), 3) {
            for (name, a) in index_kinds(&ix) {
                for w in [Way::Stream, Way::Serialized, Way::Ranges(0)] {
                    ctx.check(|| format!("{w:?}|{}|{ix:?} as {name}", s.desc), || rows_eq(&select(s, w, &a)?, &at(&s.col, &ix)));
                }
            }
        }
    });
    ctx.bound("lists of up to 3 that are not sorted, negative, null or out of range: an error, or exactly the rows");
    let odd = [-1i128, 0, 1, 3, 4, 5, 127];
    few.par_iter().for_each(|s| {
        for l in 1..=3 {
            for list in seqs(&odd.iter().map(|x| Some(*x)).chain([None]).collect::<Vec<_>>(), l) {
                let p = if list.contains(&None) { PType::I32 } else { PType::I8 };
                let c = Col::new(prim(p, list.contains(&None)), list.iter().map(|x| x.map(|x| V::of_int(p, x)).unwrap_or(V::Null)).collect());
                let a = plain(&c);
                let want: Option<Vec<usize>> = list.iter().map(|x| x.filter(|x| *x >= 0 && (*x as usize) < s.col.len()).map(|x| x as usize)).collect();
                for w in [Way::Stream, Way::Ranges(0)] {
                    ctx.check(
                        || format!("odd:{w:?}|{}|{list:?}", s.desc),
                        || match (select(s, w, &a), &want) {
                            (Err(m), _) if m.starts_with("error: ") => Ok(()),
                            (Err(m), _) => Err(m),
                            (Ok(r), None) => Err(format!("{} rows for such a list", r.1.iter().map(|a| a.len()).sum::<usize>())),
                            (Ok(r), Some(ix)) => rows_eq(&r, &at(&s.col, ix)),
                        },
                    );
                }
            }
        }
    });
    ctx.bound("files of 4 rows and two differently chunked columns: every sorted list of up to 3 rows, batch sizes 1, 2, 3, 65536, without a filter and with four filters, of all columns, one and none");
    let a = Col::new(prim(PType::I64, true), (0..4).map(|i| if i == 1 { V::Null } else { V::of_int(PType::I64, 10 + i as i128) }).collect());
    let b = Col::new(DType::Utf8(nn(false)), ["x", "y", "x", "z"].iter().map(|s| V::s(s)).collect());
    let names = ["a", "b"];
    let rows = rows_of(&names, &[a.clone(), b.clone()], 4);
    let lit = |x: i128| E::Lit(V::of_int(PType::I64, x), prim(PType::I64, false));
    let filters: Vec<Option<E>> = vec![
        None,
        Some(bin(CMPS[0], E::Col(1, false), E::Lit(V::s("x"), DType::Utf8(nn(false))))),
        Some(bin(CMPS[2], E::Col(0, false), lit(11))),
        Some(bin(CMPS[0], E::Col(0, false), lit(10))),
        Some(bin(CMPS[0], E::Col(0, false), lit(99))),
    ];
    let cuts = chunk_cuts(4);
    let pairs: Vec<(usize, usize)> = (0..cuts.len()).flat_map(|x| (0..cuts.len()).map(move |y| (x, y))).filter(|(x, y)| ctx.thorough || (x * 5 + y * 3) % 7 == 0).collect();
    pairs.into_par_iter().for_each(|(x, y)| {
        let (Ok(ca), Ok(cb)) = (chunked_with(&a, &cuts[x], |_, c| Ok(plain(c))), chunked_with(&b, &cuts[y], |_, c| Ok(plain(c)))) else { return };
        let t = Tab { col: rows.clone(), batches: vec![struct_of(&names, vec![ca, cb], 4)], desc: format!("file{:?}{:?}", cuts[x], cuts[y]) };
        let Ok(bytes) = t.bytes() else { return };
        ctx.state();
        for ix in sorted_lists(4, 3) {
            for (q, f) in filters.iter().enumerate() {
                let keep: Vec<usize> = match f {
                    None => ix.clone(),
                    Some(f) => ix.iter().copied().filter(|i| matches!(&rows.vals[*i], V::Struct(r) if f.selects(r))).collect(),
                };
                for (r, proj) in [vec![0usize, 1], vec![1], vec![]].iter().enumerate() {
                    let want = rows_of(
                        &proj.iter().map(|c| names[*c]).collect::<Vec<_>>(),
                        &proj.iter().map(|c| at([&a, &b][*c], &keep)).collect::<Vec<_>>(),
                        keep.len(),
                    );
                    for size in [1, 2, 3, 65536] {
                        let p = [PType::U64, PType::I32, PType::U8][(size + q) % 3];
                        ctx.check(
                            || format!("file|{}|{ix:?} filter {q} projection {r} batch {size}", t.desc),
                            || {
                                let mut b = LayoutReaderBuilder::new(bytes.clone(), serde_ctx())
                                    .with_indices(index_array(&ix, Ix::P(p)).unwrap())
                                    .with_projection(vortex_serde::layouts::Projection::Flat(proj.iter().map(|c| names[*c].into()).collect()))
                                    .with_batch_size(size);
                                if let Some(f) = f {
                                    b = b.with_row_filter(vortex_serde::layouts::RowFilter::new(f.build(&names)));
                                }
                                let st = es(drive(b.build(), LIMIT)?)?;
                                let d = st.schema().dtype().clone();
                                let v = drive(
                                    async {
                                        let mut st = pin!(st);
                                        let mut v = vec![];
                                        while let Some(x) = st.next().await {
                                            v.push(es(x)?);
                                        }
                                        Ok::<_, String>(v)
                                    },
                                    LIMIT,
                                )??;
                                rows_eq(&(d, v), &want)
                            },
                        );
                    }
                }
            }
        }
        for (list, ok) in [(vec![0i128, 4], false), (vec![2, 1], false), (vec![-1], false), (vec![3, 3], true), (vec![], true)] {
            ctx.check(
                || format!("oddfile|{}|{list:?}", t.desc),
                || {
                    let c = Col::new(prim(PType::I32, false), list.iter().map(|x| V::of_int(PType::I32, *x)).collect());
                    match drive(LayoutReaderBuilder::new(bytes.clone(), serde_ctx()).with_indices(plain(&c)).build(), LIMIT)? {
                        Ok(_) if !ok => Err("accepted".into()),
                        Err(e) if ok => Err(format!("{e}")),
                        _ => Ok(()),
                    }
                },
            );
        }
    });
    ctx.bound("700 rows in chunks of 1, 37, 255, 256, 257 and 700, indices around every boundary and 255, 256, 699 alone, in pairs and all together, in every integer type that holds them; 70000 rows in chunks of 65536 and 1");
    let long = |n: usize, per: usize| -> Result<Src, String> {
        let c = Col::new(prim(PType::I32, true), (0..n).map(|i| if i % 11 == 3 { V::Null } else { V::of_int(PType::I32, i as i128) }).collect());
        let ends: Vec<usize> = (1..=n.div_ceil(per)).map(|k| (k * per).min(n)).collect();
        let mut parts = vec![];
        let mut from = 0;
        for (k, to) in ends.iter().enumerate() {
            let e = encs_of(&c.slice(from, *to), Rich::Core);
            parts.push(e[k % e.len()].1.clone());
            from = *to;
        }
        Src::new(&c, parts, format!("{n} by {per}"))
    };
    let sizes = [(700, 1), (700, 37), (700, 255), (700, 256), (700, 257), (700, 700), (70_000, 65_536), (70_000, 1000)];
    sizes.par_iter().for_each(|(n, per)| {
        let Ok(s) = long(*n, *per) else { return };
        ctx.state();
        let mut ix: Vec<usize> = vec![0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 699];
        if *n > 1000 {
            ix.extend([32767, 32768, 65535, 65536, 65537, 69_999]);
        }
        for k in 1..4 {
            ix.extend([per * k - 1, per * k, per * k + 1].into_iter().filter(|i| i < n));
        }
        ix.sort();
        ix.dedup();
        let mut lists: Vec<Vec<usize>> = ix.iter().map(|i| vec![*i]).collect();
        for i in 0..ix.len() {
            for j in i..ix.len() {
                lists.push(vec![ix[i], ix[j]]);
            }
        }
        lists.push(ix.clone());
        lists.push(ix.iter().flat_map(|i| [*i, *i]).collect());
        lists.push((0..*n).collect());
        for l in &lists {
            for how in [PType::U64, PType::U8, PType::I8, PType::U16, PType::I16, PType::I32] {
                let Some(a) = index_array(l, Ix::P(how)) else { continue };
                for w in [Way::Stream, Way::Serialized, Way::Ranges(0), Way::Ranges(1)] {
                    if *n > 1000 && (w == Way::Serialized || how == PType::I16) && l.len() == 2 {
                        continue;
                    }
                    ctx.check(|| format!("{w:?}|{}|{:?} as {how}", s.desc, &l[..l.len().min(8)]), || rows_eq(&select(&s, w, &a)?, &at(&s.col, l)));
                }
            }
        }
    });
}

// C20 -------------------------------------------------------------------------------------------

/// Replays a prefix of choices, takes the first option beyond it, and records what there was to choose from.
#[derive(Default)]
struct Choices {
    script: Vec<usize>,
    made: Vec<(usize, usize)>,
    /// options other than the first taken so far, and how many are allowed
    spent: usize,
    budget: usize,
}
impl Choices {
    /// `free` choices do not count as deviations.
    fn pick(&mut self, n: usize, free: bool) -> usize {
        if n <= 1 || (!free && self.spent >= self.budget) {
            return 0;
        }
        let k = self.script.get(self.made.len()).copied().unwrap_or(0);
        self.made.push((k, n));
        if !free && k > 0 {
            self.spent += 1;
        }
        k
    }
}

/// Run `f` once for every sequence of choices; stops at `cap` runs and says so.
fn all_choices(ctx: &Ctx, budget: usize, cap: usize, mut f: impl FnMut(Arc<Mutex<Choices>>)) -> usize {
    let mut script = vec![];
    let mut runs = 0;
    loop {
        let c = Arc::new(Mutex::new(Choices { script, budget, ..Default::default() }));
        f(c.clone());
        runs += 1;
        let mut made = c.lock().unwrap().made.clone();
        while let Some((k, n)) = made.pop() {
            if k + 1 < n {
                made.push((k + 1, n));
                break;
            }
        }
        if made.is_empty() {
            return runs;
        }
        if runs >= cap {
            ctx.truncated.store(true, Relaxed);
            return runs;
        }
        script = made.into_iter().map(|m| m.0).collect();
    }
}

/// What becomes of the read numbered `.0`.
type Fault = Option<(usize, io::ErrorKind)>;

struct Disk {
    data: Vec<u8>,
    choices: Arc<Mutex<Choices>>,
    /// every read is deferred, without spending deviations on it
    defer: bool,
    fault: Fault,
    st: Mutex<DiskState>,
}
#[derive(Default)]
struct DiskState {
    reads: usize,
    waiting: Vec<(usize, Option<Waker>)>,
    released: Vec<usize>,
    order: Vec<usize>,
}
#[derive(Clone)]
struct DiskRef(Arc<Disk>);
struct ReadFut {
    disk: DiskRef,
    id: usize,
    pos: u64,
    buf: Option<BytesMut>,
    waiting: bool,
}
impl DiskRef {
    fn new(data: &[u8], choices: Arc<Mutex<Choices>>, defer: bool, fault: Fault) -> DiskRef {
        DiskRef(Arc::new(Disk { data: data.to_vec(), choices, defer, fault, st: Default::default() }))
    }
    /// Complete one of the outstanding reads. False if there are none.
    fn release(&self) -> bool {
        let mut s = self.0.st.lock().unwrap();
        if s.waiting.is_empty() {
            return false;
        }
        let k = self.0.choices.lock().unwrap().pick(s.waiting.len(), true);
        let (id, w) = s.waiting.remove(k);
        s.released.push(id);
        s.order.push(id);
        drop(s);
        if let Some(w) = w {
            w.wake();
        }
        true
    }
}
impl Future for ReadFut {
    type Output = io::Result<BytesMut>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<Self::Output> {
        let disk = self.disk.clone();
        let mut s = disk.0.st.lock().unwrap();
        let id = self.id;
        if !self.waiting {
            let later = disk.0.defer || disk.0.choices.lock().unwrap().pick(2, false) == 1;
            if later {
                self.waiting = true;
                s.waiting.push((id, Some(cx.waker().clone())));
                return Poll::Pending;
            }
        } else if let Some(w) = s.waiting.iter_mut().find(|w| w.0 == id) {
            w.1 = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if let Some((k, e)) = disk.0.fault {
            if k == id {
                return Poll::Ready(Err(io::Error::new(e, "injected")));
            }
        }
        let mut b = self.buf.take().expect("not polled again");
        let at = self.pos as usize;
        let n = b.len();
        Poll::Ready(match disk.0.data.get(at..at + n) {
            Some(d) => {
                b.copy_from_slice(d);
                Ok(b)
            }
            None => Err(io::Error::new(io::ErrorKind::UnexpectedEof, "end of data")),
        })
    }
}
impl VortexReadAt for DiskRef {
    fn read_at_into(&self, pos: u64, buffer: BytesMut) -> impl Future<Output = io::Result<BytesMut>> + Send {
        let mut s = self.0.st.lock().unwrap();
        let id = s.reads;
        s.reads += 1;
        ReadFut { disk: self.clone(), id, pos, buf: Some(buffer), waiting: false }
    }
    async fn size(&self) -> u64 {
        self.0.data.len() as u64
    }
}

/// Run a future to completion; whenever it is stuck one of the outstanding reads completes.
fn drive_disk<F: Future>(f: F, disk: &DiskRef) -> Result<F::Output, String> {
    let flag = Arc::new(Flag::default());
    let waker = Waker::from(flag.clone());
    let mut cx = Cx::from_waker(&waker);
    let mut f = pin!(f);
    for _ in 0..LIMIT {
        flag.0.store(false, Relaxed);
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(r) => return Ok(r),
            Poll::Pending => {
                if !flag.0.load(Relaxed) && !disk.release() {
                    return Err("hang: pending without a wake-up or an outstanding read".into());
                }
                // a completed read has to wake the task
                if !flag.0.load(Relaxed) {
                    return Err("hang: the completion of a read woke nobody".into());
                }
            }
        }
    }
    Err("hang: still pending".into())
}

/// What a reader delivered before it ended or failed, and the failure.
struct Got {
    dtype: Option<DType>,
    batches: Vec<Array>,
    err: Option<String>,
}

/// Poll a stream to its end, and some more after an error.
async fn pull(d: DType, st: impl futures_util::Stream<Item = vortex_error::VortexResult<Array>>, cap: usize) -> Result<Got, String> {
    let mut st = pin!(st);
    let mut g = Got { dtype: Some(d), batches: vec![], err: None };
    loop {
        match st.next().await {
            None => return Ok(g),
            Some(Ok(b)) => g.batches.push(b),
            Some(Err(e)) => {
                g.err = Some(format!("{e}"));
                break;
            }
        }
        if g.batches.len() > cap {
            return Err(format!("more than {cap} batches"));
        }
    }
    for _ in 0..3 {
        match st.next().await {
            Some(Ok(_)) => return Err("rows after an error".into()),
            Some(Err(_)) => continue,
            None => break,
        }
    }
    Ok(g)
}

/// The rows are as expected, or the first of them followed by an error where one is allowed.
fn judge(g: &Got, want: &Col, may_fail: bool) -> Result<(), String> {
    let Some(d) = &g.dtype else {
        return match &g.err {
            Some(_) if may_fail => Ok(()),
            Some(e) => Err(format!("error: {e}")),
            None => Err("nothing".into()),
        };
    };
    match &g.err {
        None => rows_eq(&(d.clone(), g.batches.clone()), want),
        Some(e) if !may_fail => Err(format!("error: {e}")),
        Some(_) => {
            let n: usize = g.batches.iter().map(|b| b.len()).sum();
            if n > want.len() {
                return Err(format!("{n} rows of {}", want.len()));
            }
            rows_eq(&(d.clone(), g.batches.clone()), &want.slice(0, n))
        }
    }
}

async fn pull_file(r: DiskRef, q: &Req, ix: Option<Array>) -> Result<Got, String> {
    let mut b = LayoutReaderBuilder::new(r, serde_ctx()).with_projection(q.proj.clone());
    if let Some(n) = q.batch {
        b = b.with_batch_size(n);
    }
    if let Some(f) = &q.filter {
        b = b.with_row_filter(f.clone());
    }
    if let Some(a) = ix {
        b = b.with_indices(a);
    }
    match b.build().await {
        Err(e) => Ok(Got { dtype: None, batches: vec![], err: Some(format!("{e}")) }),
        Ok(st) => pull(st.schema().dtype().clone(), st, 100).await,
    }
}

const KINDS: [io::ErrorKind; 6] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Interrupted,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::InvalidData,
];

struct Case {
    desc: String,
    bytes: Vec<u8>,
    req: Req,
    ix: Option<Array>,
    want: Col,
}

fn cases(thorough: bool) -> Vec<Case> {
    let n = 5usize;
    let names = ["a", "b", "c"];
    let a = Col::new(prim(PType::I32, true), (0..n).map(|i| if i == 1 { V::Null } else { V::of_int(PType::I32, i as i128) }).collect());
    let b = Col::new(DType::Utf8(nn(false)), ["x", "", "x", "longer than twelve bytes", "y"].iter().map(|s| V::s(s)).collect());
    let c = Col::new(DType::Bool(nn(true)), (0..n).map(|i| if i == 3 { V::Null } else { V::B(i % 2 == 0) }).collect());
    let cols = [a, b, c];
    let rows = rows_of(&names, &cols, n);
    let lays: Vec<(&str, [Vec<usize>; 3])> = vec![
        ("whole", [vec![5], vec![5], vec![5]]),
        ("same", [vec![2, 5], vec![2, 5], vec![2, 5]]),
        ("mixed", [vec![1, 3, 5], vec![5], vec![4, 5]]),
        ("empty", [vec![0, 5], vec![3, 3, 5], vec![5, 5]]),
        ("rows", [vec![1, 2, 3, 4, 5], vec![2, 5], vec![5]]),
    ];
    let lit = |x: i128| E::Lit(V::of_int(PType::I32, x), prim(PType::I32, false));
    let filters = [
        None,
        Some(bin(CMPS[4], E::Col(0, false), lit(1))),
        Some(bin(vortex_expr::Operator::And, bin(CMPS[0], E::Col(1, false), E::Lit(V::s("x"), DType::Utf8(nn(false)))), E::Col(2, false))),
        Some(bin(CMPS[0], E::Col(0, false), lit(9))),
    ];
    let mut out = vec![];
    for (l, cuts) in &lays {
        let cs: Vec<Array> = cols.iter().zip(cuts).map(|(c, k)| chunked_with(c, k, |_, x| Ok(plain(x))).expect("chunks")).collect();
        let t = Tab { col: rows.clone(), batches: vec![struct_of(&names, cs, n)], desc: String::new() };
        let bytes = t.bytes().expect("written");
        for (fi, f) in filters.iter().enumerate() {
            for p in [vec![0usize, 1, 2], vec![2, 0], vec![1]] {
                for ix in [None, Some(vec![1usize, 4, 4])] {
                    for size in [1, 2, 65536] {
                        if !thorough && (ix.is_some() && (size == 1 || p.len() == 3) || (fi == 3 && size != 2)) {
                            continue;
                        }
                        let keep: Vec<usize> = ix.clone().unwrap_or((0..n).collect()).into_iter().filter(|i| match (f, &rows.vals[*i]) {
                            (Some(f), V::Struct(r)) => f.selects(r),
                            _ => true,
                        }).collect();
                        out.push(Case {
                            desc: format!("{l}|filter {fi}|{p:?}|{ix:?}|{size}"),
                            bytes: bytes.clone(),
                            req: Req {
                                batch: Some(size),
                                proj: vortex_serde::layouts::Projection::Flat(p.iter().map(|i| names[*i].into()).collect()),
                                filter: f.as_ref().map(|f| vortex_serde::layouts::RowFilter::new(f.build(&names))),
                            },
                            ix: ix.as_ref().map(|ix| index_array(ix, Ix::P(PType::U32)).unwrap()),
                            want: rows_of(&p.iter().map(|i| names[*i]).collect::<Vec<_>>(), &p.iter().map(|i| at(&cols[*i], &keep)).collect::<Vec<_>>(), keep.len()),
                        });
                    }
                }
            }
        }
    }
    out
}

/// A sink whose every call is decided: the calls listed fail, or are pending once; a call may write only a part.
struct Sink {
    out: Vec<u8>,
    calls: usize,
    plan: Vec<(usize, Act)>,
    rest: Act,
    /// keeps what it is given until it is flushed
    hold: Option<Vec<u8>>,
    failed: bool,
}
impl Sink {
    fn new(plan: Vec<(usize, Act)>, rest: Act, hold: bool) -> Sink {
        Sink { out: vec![], calls: 0, plan, rest, hold: hold.then(Vec::new), failed: false }
    }
    fn act(&mut self, cx: &mut Cx<'_>) -> Poll<io::Result<usize>> {
        let k = self.calls;
        self.calls += 1;
        match self.plan.iter().find(|p| p.0 == k).map(|p| p.1).unwrap_or(self.rest) {
            Act::All => Poll::Ready(Ok(usize::MAX)),
            Act::Short(n) => Poll::Ready(Ok(n)),
            Act::Eof => {
                self.failed = true;
                Poll::Ready(Ok(0))
            }
            Act::Pending => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Act::Err(e) => {
                self.failed = true;
                Poll::Ready(Err(io::Error::new(e, "injected")))
            }
        }
    }
}
impl tokio::io::AsyncWrite for Sink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if let Some(h) = &mut self.hold {
            h.extend_from_slice(buf);
            return Poll::Ready(Ok(buf.len()));
        }
        match self.act(cx) {
            Poll::Ready(Ok(n)) => {
                let n = n.min(buf.len());
                self.out.extend_from_slice(&buf[..n]);
                Poll::Ready(Ok(n))
            }
            r => r,
        }
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        match self.act(cx) {
            Poll::Ready(Ok(0)) => Poll::Ready(Err(io::Error::new(io::ErrorKind::WriteZero, "injected"))),
            Poll::Ready(Ok(_)) => {
                if let Some(h) = &mut self.hold {
                    let h = std::mem::take(h);
                    self.out.extend(h);
                }
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

/// The same decisions one level up, where a write is all or nothing.
struct Whole(Sink);
impl VortexWrite for Whole {
    async fn write_all<B: IoBuf>(&mut self, buffer: B) -> io::Result<B> {
        std::future::poll_fn(|cx| self.0.act(cx)).await?;
        self.0.out.extend_from_slice(buffer.as_slice());
        Ok(buffer)
    }
    async fn flush(&mut self) -> io::Result<()> {
        std::future::poll_fn(|cx| self.0.act(cx)).await.map(|_| ())
    }
    async fn shutdown(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Batches that are not ready, or fail, where the plan says so.
fn flaky(d: &DType, parts: &[Array], plan: Vec<(usize, Act)>) -> impl ArrayStream + Unpin {
    let parts = parts.to_vec();
    let mut k = 0;
    let mut polls = 0;
    let st = futures_util::stream::poll_fn(move |cx| {
        let act = plan.iter().find(|p| p.0 == polls).map(|p| p.1);
        polls += 1;
        match act {
            Some(Act::Pending) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Some(Act::Err(e)) => Poll::Ready(Some(Err(vortex_error::VortexError::from(io::Error::new(e, "injected"))))),
            _ => {
                k += 1;
                Poll::Ready(parts.get(k - 1).cloned().map(Ok))
            }
        }
    });
    vortex::stream::ArrayStreamAdapter::new(d.clone(), st)
}

#[derive(Debug)]
struct BadStore(object_store::memory::InMemory, Mutex<usize>, Option<usize>, bool);
impl std::fmt::Display for BadStore {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("store")
    }
}
impl BadStore {
    fn call(&self) -> object_store::Result<()> {
        let mut n = self.1.lock().unwrap();
        let k = *n;
        *n += 1;
        if self.2 == Some(k) {
            return Err(object_store::Error::Generic { store: "store", source: "injected".into() });
        }
        Ok(())
    }
}
#[async_trait::async_trait]
impl object_store::ObjectStore for BadStore {
    async fn put_opts(&self, l: &object_store::path::Path, p: object_store::PutPayload, o: object_store::PutOptions) -> object_store::Result<object_store::PutResult> {
        self.call()?;
        self.0.put_opts(l, p, o).await
    }
    async fn put_multipart_opts(&self, l: &object_store::path::Path, o: object_store::PutMultipartOpts) -> object_store::Result<Box<dyn object_store::MultipartUpload>> {
        self.call()?;
        self.0.put_multipart_opts(l, o).await
    }
    async fn get_opts(&self, l: &object_store::path::Path, o: object_store::GetOptions) -> object_store::Result<object_store::GetResult> {
        self.call()?;
        self.0.get_opts(l, o).await
    }
    async fn get_range(&self, l: &object_store::path::Path, r: std::ops::Range<usize>) -> object_store::Result<bytes::Bytes> {
        self.call()?;
        let b = self.0.get_range(l, r).await?;
        // a store that answers with less than it was asked for
        Ok(if self.3 { b.slice(..b.len() - 1) } else { b })
    }
    async fn delete(&self, l: &object_store::path::Path) -> object_store::Result<()> {
        self.0.delete(l).await
    }
    fn list(&self, p: Option<&object_store::path::Path>) -> futures_util::stream::BoxStream<'_, object_store::Result<object_store::ObjectMeta>> {
        self.0.list(p)
    }
    async fn list_with_delimiter(&self, p: Option<&object_store::path::Path>) -> object_store::Result<object_store::ListResult> {
        self.0.list_with_delimiter(p).await
    }
    async fn copy(&self, a: &object_store::path::Path, b: &object_store::path::Path) -> object_store::Result<()> {
        self.0.copy(a, b).await
    }
    async fn copy_if_not_exists(&self, a: &object_store::path::Path, b: &object_store::path::Path) -> object_store::Result<()> {
        self.0.copy_if_not_exists(a, b).await
    }
}

pub fn c20(ctx: &Ctx) {
    let cap = if ctx.thorough { 1_000_000 } else { 50_000 };
    let dev = if ctx.thorough { 7 } else { 4 };
    let cs = cases(ctx.thorough);
    ctx.bound(format!("{} ways of reading a file of 5 rows and 3 columns in 5 chunkings (filters, projections, row indices, batch sizes): every order in which the outstanding reads complete when every read is deferred, and every choice of up to {dev} deferred reads among immediate ones (at most {cap} schedules each)", cs.len()));
    let runs = AtomicUsize::new(0);
    cs.par_iter().for_each(|c| {
        ctx.state();
        ctx.sample(|| c.desc.clone());
        for defer in [true, false] {
            let n = all_choices(ctx, dev, cap, |ch| {
                let disk = DiskRef::new(&c.bytes, ch.clone(), defer, None);
                ctx.check(
                    || format!("order|{}|{:?} of {}", c.desc, disk.0.st.lock().unwrap().order, if defer { "all" } else { "some" }),
                    || judge(&drive_disk(pull_file(disk.clone(), &c.req, c.ix.clone()), &disk)??, &c.want, false),
                );
            });
            runs.fetch_add(n, Relaxed);
        }
    });
    ctx.bound(format!("{} schedules in all", runs.load(Relaxed)));
    ctx.bound(format!("the same ways of reading: an error of each of {} kinds at every single read, at once or deferred; polled again afterwards", KINDS.len()));
    cs.par_iter().for_each(|c| {
        let probe = DiskRef::new(&c.bytes, Default::default(), false, None);
        let Ok(Ok(_)) = drive_disk(pull_file(probe.clone(), &c.req, c.ix.clone()), &probe) else { return };
        let reads = probe.0.st.lock().unwrap().reads;
        for k in 0..reads {
            for e in KINDS {
                for defer in [false, true] {
                    let disk = DiskRef::new(&c.bytes, Default::default(), defer, Some((k, e)));
                    ctx.check(
                        || format!("fail|{}|read {k} {e:?}{}", c.desc, if defer { " deferred" } else { "" }),
                        || {
                            let g = drive_disk(pull_file(disk.clone(), &c.req, c.ix.clone()), &disk)??;
                            if g.err.is_none() {
                                return Err("the error is not reported".into());
                            }
                            judge(&g, &c.want, true)
                        },
                    );
                }
            }
            // through the record batch reader
            let disk = DiskRef::new(&c.bytes, Default::default(), false, Some((k, io::ErrorKind::Other)));
            ctx.check(
                || format!("arrow-fail|{}|read {k}", c.desc),
                || {
                    let b = LayoutReaderBuilder::new(disk.clone(), serde_ctx()).with_projection(c.req.proj.clone()).with_batch_size(c.req.batch.unwrap());
                    let b = if let Some(f) = &c.req.filter { b.with_row_filter(f.clone()) } else { b };
                    let Ok(st) = drive_disk(b.build(), &disk)? else { return Ok(()) };
                    let rt = OnDisk(disk.clone());
                    let mut rd = es(vortex_serde::layouts::VortexRecordBatchReader::new(st, &rt))?;
                    for _ in 0..20 {
                        match rd.next() {
                            None => return if disk.0.st.lock().unwrap().reads > k { Err("the error is not reported".into()) } else { Ok(()) },
                            Some(Err(_)) => return Ok(()),
                            Some(Ok(_)) => {}
                        }
                    }
                    Err("no end".into())
                },
            );
        }
    });
    ctx.bound("the same: an error at every single read in every order of completions, every read deferred");
    cs.par_iter().for_each(|c| {
        let probe = DiskRef::new(&c.bytes, Default::default(), false, None);
        let Ok(Ok(_)) = drive_disk(pull_file(probe.clone(), &c.req, c.ix.clone()), &probe) else { return };
        let reads = probe.0.st.lock().unwrap().reads;
        for k in 0..reads {
            all_choices(ctx, 0, cap, |ch| {
                let disk = DiskRef::new(&c.bytes, ch, true, Some((k, io::ErrorKind::Other)));
                ctx.check(
                    || format!("fail-order|{}|read {k}|{:?}", c.desc, disk.0.st.lock().unwrap().order),
                    || {
                        let g = drive_disk(pull_file(disk.clone(), &c.req, c.ix.clone()), &disk)??;
                        if g.err.is_none() {
                            return Err("the error is not reported".into());
                        }
                        judge(&g, &c.want, true)
                    },
                );
            });
        }
    });
    ctx.bound("positions in a serialized stream: every order of completions and every failing read while taking rows, and while streaming all of it");
    let fams = [int_mid(PType::I32, true), utf8_fam(true)];
    let srcs = sources(ctx, &fams, 4);
    srcs.par_iter().for_each(|s| {
        ctx.state();
        let rd = |disk: &DiskRef| {
            es(ChunkedArrayReader::try_new(disk.clone(), all_context(), Arc::new(s.dtype()), offsets(&s.at.chunks.byte_offsets, 0), offsets(&s.at.chunks.row_offsets, 0)))
        };
        for ix in [vec![0usize, 1, 2, 3], vec![0, 3], vec![1, 1, 2], vec![3]] {
            if s.col.len() == 0 {
                continue;
            }
            let a = index_array(&ix, Ix::P(PType::U64)).unwrap();
            let go = |disk: &DiskRef| -> Result<Got, String> {
                let r = drive_disk(async { rd(disk)?.take_rows(&a).await.map_err(|e| format!("error: {e}")) }, disk)?;
                Ok(match r {
                    Ok(a) => Got { dtype: Some(a.dtype().clone()), batches: vec![a], err: None },
                    Err(e) => Got { dtype: None, batches: vec![], err: Some(e) },
                })
            };
            all_choices(ctx, dev, cap, |ch| {
                for defer in [true, false] {
                    let disk = DiskRef::new(&s.bytes, ch.clone(), defer, None);
                    ctx.check(|| format!("take-order|{}|{ix:?}|{:?}", s.desc, disk.0.st.lock().unwrap().order), || judge(&go(&disk)?, &at(&s.col, &ix), false));
                    if defer && ch.lock().unwrap().made.is_empty() {
                        continue;
                    }
                    break;
                }
            });
            let probe = DiskRef::new(&s.bytes, Default::default(), false, None);
            if go(&probe).is_err() {
                continue;
            }
            let reads = probe.0.st.lock().unwrap().reads;
            for k in 0..reads {
                for e in KINDS {
                    let disk = DiskRef::new(&s.bytes, Default::default(), k % 2 == 0, Some((k, e)));
                    ctx.check(
                        || format!("take-fail|{}|{ix:?}|read {k} {e:?}", s.desc),
                        || {
                            let g = go(&disk)?;
                            if g.err.is_none() {
                                return Err("the error is not reported".into());
                            }
                            judge(&g, &at(&s.col, &ix), true)
                        },
                    );
                }
            }
        }
        let all = |disk: &DiskRef| -> Result<Got, String> {
            let mut r = rd(disk)?;
            drive_disk(
                async {
                    let st = r.array_stream().await;
                    let d = st.dtype().clone();
                    pull(d, st, 50).await
                },
                disk,
            )?
        };
        let probe = DiskRef::new(&s.bytes, Default::default(), true, None);
        ctx.check(|| format!("stream|{}", s.desc), || judge(&all(&probe)?, &s.col, false));
        let reads = probe.0.st.lock().unwrap().reads;
        for k in 0..reads {
            for e in KINDS {
                let disk = DiskRef::new(&s.bytes, Default::default(), k % 2 == 0, Some((k, e)));
                // the end of the data between messages is the end of the stream
                ctx.check(
                    || format!("stream-fail|{}|read {k} {e:?}", s.desc),
                    || {
                        let g = all(&disk)?;
                        if g.err.is_none() {
                            if e == io::ErrorKind::UnexpectedEof {
                                return whole_prefix(&g.batches, &s.parts);
                            }
                            return Err("the error is not reported".into());
                        }
                        judge(&g, &s.col, true)
                    },
                );
            }
        }
    });
    ctx.bound("serialized streams of up to 2 batches of every type: an error of every kind at every poll of the source, read whole and in small pieces, through the futures and tokio adapters");
    let seqs2: Vec<Batches> = all_fams(ctx.thorough).iter().flat_map(|f| sequences(f, 2, 3)).collect();
    seqs2.par_iter().for_each(|b| {
        let Ok(bytes) = b.bytes() else { return };
        ctx.state();
        for rest in [Act::All, Act::Short(61)] {
            for ad in ["futures", "tokio"] {
                let mut k = 0;
                loop {
                    let mut more = false;
                    for e in KINDS {
                        ctx.check(
                            || format!("{ad}-fail|{}|{rest:?}|poll {k} {e:?}", b.desc),
                            || {
                                let s = Sched::new(&bytes, vec![(k, Act::Err(e))], rest);
                                let seen = s.seen.clone();
                                let lim = bytes.len() + 10_000;
                                let g = if ad == "futures" { drive(pull_stream(FuturesAdapter(s)), lim)?? } else { drive(pull_stream(TokioAdapter(s)), lim)?? };
                                let hit = seen.load(Relaxed) > k;
                                more |= hit;
                                let want = Col::concat(&b.parts.iter().map(|p| p.1.clone()).chain([Col::new(b.dtype.clone(), vec![])]).collect::<Vec<_>>());
                                match &g.err {
                                    // interrupted reads are tried again, the end of input between messages ends the stream
                                    None if e == io::ErrorKind::UnexpectedEof => whole_prefix(&g.batches, &b.parts.iter().map(|p| p.0.clone()).collect::<Vec<_>>()),
                                    None if hit && e != io::ErrorKind::Interrupted && e != io::ErrorKind::WouldBlock => Err("the error is not reported".into()),
                                    None => judge(&g, &want, false),
                                    Some(_) => judge(&g, &want, true),
                                }
                            },
                        );
                    }
                    k += 1;
                    if !more || ctx.only.is_some() && k > 300 {
                        break;
                    }
                }
            }
        }
    });
    ctx.bound("writing: the same bytes however the sink splits and delays them; an error at every single call of the sink, flushing included, with sinks that write at once and sinks that hold everything until flushed, reported to the caller; batches that are pending or fail at every position");
    let tabs: Vec<Tab> = [int_mid(PType::I32, true), utf8_fam(true), bool_fam(true)].iter().flat_map(|f| tables(f, if ctx.thorough { 3 } else { 2 }, Rich::Core)).collect();
    tabs.par_iter().for_each(|t| {
        ctx.state();
        let Ok(plain_bytes) = t.bytes() else { return };
        let d = &t.col.dtype;
        for file in [true, false] {
            let reference = if file { plain_bytes.clone() } else { write_stream(&[(d.clone(), t.batches.clone())]).unwrap_or_default() };
            // the result of writing, and the sink
            macro_rules! go {
                ($w:expr) => {
                    if file {
                        drive(write_to($w, d, &t.batches), LIMIT)?
                    } else {
                        drive(write_stream_to($w, &[(d.clone(), t.batches.clone())]), LIMIT)?
                    }
                };
            }
            let kind = if file { "file" } else { "stream" };
            for rest in [Act::All, Act::Short(1), Act::Short(7), Act::Short(64)] {
                ctx.check(
                    || format!("write|{kind}|{}|{rest:?}", t.desc),
                    || {
                        let w = go!(TokioAdapter(Sink::new(vec![], rest, false)))?;
                        if w.0.out != reference {
                            return Err(format!("{} other bytes instead of {}", w.0.out.len(), reference.len()));
                        }
                        Ok(())
                    },
                );
            }
            let mut k = 0;
            loop {
                let mut more = false;
                for act in KINDS.iter().map(|e| Act::Err(*e)).chain([Act::Eof, Act::Pending, Act::Short(1)]) {
                    for level in 0..3 {
                        if level == 1 && matches!(act, Act::Eof | Act::Short(_)) {
                            continue;
                        }
                        if level == 2 && !file {
                            continue;
                        }
                        ctx.check(
                            || format!("write-fail|{kind}|{}|level {level} call {k} {act:?}", t.desc),
                            || {
                                let plan = vec![(k, act)];
                                let calls = Arc::new(Mutex::new((0usize, vec![], false)));
                                let r = if level == 1 {
                                    go!(Spy(Whole(Sink::new(plan, Act::All, false)), calls.clone())).map(|_| ())
                                } else {
                                    go!(TokioAdapter(SpySink(Sink::new(plan, Act::All, level == 2), calls.clone()))).map(|_| ())
                                };
                                let c = calls.lock().unwrap();
                                let hit = c.0 > k;
                                more |= hit;
                                match r {
                                    // the flush after writing
                                    Ok(()) if c.2 && !matches!(act, Act::Err(io::ErrorKind::Interrupted)) => Err("the error is not reported".into()),
                                    Ok(()) if c.1 != reference => Err(format!("{} other bytes instead of {}", c.1.len(), reference.len())),
                                    Ok(()) => Ok(()),
                                    Err(_) if c.2 => Ok(()),
                                    Err(m) => Err(m),
                                }
                            },
                        );
                    }
                }
                k += 1;
                if !more || k > 400 {
                    break;
                }
            }
            for k in 0..=t.batches.len() {
                for act in [Act::Pending, Act::Err(io::ErrorKind::Other), Act::Err(io::ErrorKind::UnexpectedEof)] {
                    ctx.check(
                        || format!("source|{kind}|{}|poll {k} {act:?}", t.desc),
                        || {
                            let st = flaky(d, &t.batches, vec![(k, act)]);
                            let r = drive(
                                async {
                                    if file {
                                        let w = es(LayoutWriter::new(vec![]).write_array_columns_stream(st).await)?;
                                        es(w.finalize().await)
                                    } else {
                                        es(StreamArrayWriter::new(vec![]).write_array_stream(st).await).map(|w| w.into_inner())
                                    }
                                },
                                LIMIT,
                            )?;
                            match (r, act) {
                                (Ok(b), Act::Pending) if b == reference => Ok(()),
                                (Ok(_), Act::Pending) => Err("other bytes".into()),
                                (Ok(_), _) => Err("the error is not reported".into()),
                                (Err(m), Act::Pending) => Err(m),
                                (Err(_), _) => Ok(()),
                            }
                        },
                    );
                }
            }
        }
    });
    ctx.bound("taking rows of a stream whose batches are pending or fail at every position");
    srcs.par_iter().for_each(|s| {
        if s.col.len() == 0 {
            return;
        }
        for ix in [vec![0usize, 3], vec![1, 1, 2], vec![3], vec![]] {
            let a = index_array(&ix, Ix::P(PType::U64)).unwrap();
            for k in 0..=s.parts.len() {
                for act in [Act::Pending, Act::Err(io::ErrorKind::Other)] {
                    ctx.check(
                        || format!("take-source|{}|{ix:?}|poll {k} {act:?}", s.desc),
                        || {
                            let g = drive(
                                async {
                                    let st = es(flaky(&s.dtype(), &s.parts, vec![(k, act)]).take_rows(a.clone()))?;
                                    let d = st.dtype().clone();
                                    let mut st = pin!(st);
                                    let mut g = Got { dtype: Some(d), batches: vec![], err: None };
                                    while let Some(x) = st.next().await {
                                        match x {
                                            Ok(b) => g.batches.push(b),
                                            Err(e) => {
                                                g.err = Some(format!("{e}"));
                                                break;
                                            }
                                        }
                                    }
                                    Ok::<_, String>(g)
                                },
                                LIMIT,
                            )??;
                            judge(&g, &at(&s.col, &ix), act != Act::Pending)
                        },
                    );
                }
            }
        }
    });
    ctx.bound("object stores: files and streams written to and read from a store in memory, every call failing in turn, and every range answered short; files on disk through tokio, and a full device");
    let rt = tokio::runtime::Builder::new_current_thread().build().expect("runtime");
    for t in tabs.iter().filter(|t| t.batches.len() == 2) {
        ctx.state();
        let path: &'static object_store::path::Path = Box::leak(Box::new("f".into()));
        let Ok(bytes) = t.bytes() else { continue };
        for fail in [None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(5), Some(6)] {
            for short in [false, true] {
                ctx.check(
                    || format!("store|{}|call {fail:?} short {short}", t.desc),
                    || {
                        let bad = Arc::new(BadStore(object_store::memory::InMemory::new(), Mutex::new(0), fail, short));
                        let store: &'static Arc<dyn object_store::ObjectStore> = Box::leak(Box::new(bad.clone() as Arc<dyn object_store::ObjectStore>));
                        let r: Result<(DType, Vec<Array>), String> = rt.block_on(async {
                            let mut w = es(store.vortex_writer(path).await)?;
                            w = write_to(w, &t.col.dtype, &t.batches).await?;
                            w.shutdown().await.map_err(|e| format!("error: {e}"))?;
                            read_from(store.vortex_reader(path), &Req::b(2), Some(bytes.len() as u64), 100).await
                        });
                        let calls = *bad.1.lock().unwrap();
                        match r {
                            Ok(_) if fail.is_some_and(|k| k < calls) => Err("the error is not reported".into()),
                            Ok(_) if short => Err("short answers are not reported".into()),
                            Ok(r) => rows_eq(&r, &t.col),
                            Err(_) if short || fail.is_some_and(|k| k < calls) => Ok(()),
                            Err(m) => Err(m),
                        }
                    },
                );
            }
        }
        // the size of an object that isn't there
        ctx.check(
            || format!("store-size|{}", t.desc),
            || {
                let store: &'static Arc<dyn object_store::ObjectStore> = Box::leak(Box::new(Arc::new(object_store::memory::InMemory::new()) as Arc<dyn object_store::ObjectStore>));
                match rt.block_on(read_from(store.vortex_reader(path), &Req::b(2), None, 100)) {
                    Ok(_) => Err("rows of no object".into()),
                    Err(m) if m.starts_with("error") => Ok(()),
                    Err(m) => Err(m),
                }
            },
        );
    }
    let dir = std::env::temp_dir().join(format!("mc-c20-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("a scratch directory");
    for (k, t) in tabs.iter().enumerate().filter(|(k, _)| k % 5 == 0) {
        let p = dir.join(format!("{k}.vortex"));
        ctx.check(
            || format!("disk|{}", t.desc),
            || {
                let r: Result<_, String> = rt.block_on(async {
                    let f = tokio::fs::File::create(&p).await.map_err(|e| e.to_string())?;
                    write_to(f, &t.col.dtype, &t.batches).await?;
                    let f = tokio::fs::File::open(&p).await.map_err(|e| e.to_string())?;
                    read_from(f, &Req::b(2), None, 100).await
                });
                rows_eq(&r?, &t.col)
            },
        );
    }
    std::fs::remove_dir_all(&dir).ok();
    for t in tabs.iter().take(8) {
        ctx.check(
            || format!("full|{}", t.desc),
            || {
                let r: Result<_, String> = rt.block_on(async {
                    let Ok(f) = tokio::fs::OpenOptions::new().write(true).open("/dev/full").await else { return Err("error: no such device".into()) };
                    write_to(f, &t.col.dtype, &t.batches).await.map(|_| ())
                });
                if r.is_ok() {
                    return Err("writing to a full device succeeded".into());
                }
                Ok(())
            },
        );
    }
}

/// The batches are the first of these, whole.
fn whole_prefix(got: &[Array], parts: &[Array]) -> Result<(), String> {
    if got.len() > parts.len() {
        return Err("more batches than written".into());
    }
    for (k, (g, p)) in got.iter().zip(parts).enumerate() {
        same(g, &observe(p)?).map_err(|m| format!("batch {k}: {m}"))?;
    }
    Ok(())
}

async fn pull_stream<R: VortexRead>(r: R) -> Result<Got, String> {
    let fail = |e: vortex_error::VortexError| Ok(Got { dtype: None, batches: vec![], err: Some(format!("{e}")) });
    let rd = match StreamArrayReader::try_new(r, all_context()).await {
        Ok(r) => r,
        Err(e) => return fail(e),
    };
    let mut rd = match rd.load_dtype().await {
        Ok(r) => r,
        Err(e) => return fail(e),
    };
    let mut g = {
        let st = rd.array_stream();
        let d = st.dtype().clone();
        pull(d, st, 100).await?
    };
    // whatever happened, the reader can be asked again
    for k in 0..6 {
        match rd.next_page().await {
            Ok(Some(_)) => {}
            Ok(None) => break,
            Err(e) => {
                g.err.get_or_insert(format!("{e}"));
                if k == 5 {
                    return Err("no end of errors".into());
                }
            }
        }
    }
    let again = {
        let st = rd.array_stream();
        let d = st.dtype().clone();
        pull(d, st, 100).await?
    };
    if !again.batches.is_empty() && g.err.is_some() {
        return Err("batches after an error".into());
    }
    if let Some(e) = again.err {
        g.err.get_or_insert(e);
    }
    Ok(g)
}

struct OnDisk(DiskRef);
impl vortex_serde::layouts::AsyncRuntime for OnDisk {
    fn block_on<F: Future>(&self, fut: F) -> F::Output {
        drive_disk(fut, &self.0).unwrap_or_else(|m| panic!("{m}"))
    }
}

type Seen = Arc<Mutex<(usize, Vec<u8>, bool)>>;
/// Sinks that tell what became of them even if the writer drops them.
struct SpySink(Sink, Seen);
impl SpySink {
    fn note(&self) {
        let mut s = self.1.lock().unwrap();
        s.0 = self.0.calls;
        s.1 = self.0.out.clone();
        s.2 = self.0.failed;
    }
}
impl tokio::io::AsyncWrite for SpySink {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let r = Pin::new(&mut self.0).poll_write(cx, buf);
        self.note();
        r
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        let r = Pin::new(&mut self.0).poll_flush(cx);
        self.note();
        r
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        let r = Pin::new(&mut self.0).poll_shutdown(cx);
        self.note();
        r
    }
}
struct Spy(Whole, Seen);
impl Spy {
    fn note(&self) {
        let mut s = self.1.lock().unwrap();
        s.0 = self.0 .0.calls;
        s.1 = self.0 .0.out.clone();
        s.2 = self.0 .0.failed;
    }
}
impl VortexWrite for Spy {
    async fn write_all<B: IoBuf>(&mut self, buffer: B) -> io::Result<B> {
        let r = self.0.write_all(buffer).await;
        self.note();
        r
    }
    async fn flush(&mut self) -> io::Result<()> {
        let r = self.0.flush().await;
        self.note();
        r
    }
    async fn shutdown(&mut self) -> io::Result<()> {
        self.0.shutdown().await
    }
}

// C21 -------------------------------------------------------------------------------------------

fn must_fail<T>(r: Result<T, String>, what: &str) -> Result<(), String> {
    match r {
        Err(m) if m.starts_with("error") => Ok(()),
        Err(m) => Err(m),
        Ok(_) => Err(format!("{what} was read without an error")),
    }
}

pub fn c21(ctx: &Ctx) {
    let n = if ctx.thorough { 3 } else { 2 };
    let fams = all_fams(ctx.thorough);
    ctx.bound(format!("files of every type in every sequence of up to {n} batches out of 3 (empty, one row, several): cut at every single byte; opened as what is left, and with the size before the cut; read in batches of 2 and whole, of all columns, one, none, and with a filter"));
    let tabs: Vec<Tab> = fams.par_iter().flat_map(|f| tables(f, n, Rich::Core)).collect();
    tabs.par_iter().enumerate().for_each(|(q, t)| {
        let Ok(bytes) = t.bytes() else { return };
        ctx.state();
        ctx.tag(t.desc.split('[').next().unwrap());
        ctx.sample(|| format!("{} of {} bytes", t.desc, bytes.len()));
        let lit = E::Lit(V::of_int(PType::I32, 1), prim(PType::I32, false));
        let reqs = [
            Req::b(2),
            Req { batch: Some(65536), proj: vortex_serde::layouts::Projection::Flat(vec!["row".into()]), filter: None },
            Req { batch: Some(1), proj: vortex_serde::layouts::Projection::Flat(vec![]), filter: None },
            Req { batch: Some(3), proj: Default::default(), filter: Some(vortex_serde::layouts::RowFilter::new(bin(CMPS[2], E::Col(1, false), lit).build(&["v", "row"]))) },
        ];
        for cut in 0..bytes.len() {
            let req = &reqs[(cut + q) % reqs.len()];
            let left = &bytes[..cut];
            ctx.check(|| format!("file|{}|{cut} of {}", t.desc, bytes.len()), || must_fail(read_bytes(left, req, 100), "a part of a file"));
            if cut % 3 == q % 3 || cut + 100 > bytes.len() {
                ctx.check(
                    || format!("size|{}|{cut} of {}", t.desc, bytes.len()),
                    || must_fail(drive(read_from(left.to_vec(), req, Some(bytes.len() as u64), 100), LIMIT)?, "a part of a file"),
                );
                // the size of a part, of the whole file
                ctx.check(
                    || format!("small|{}|{cut} of {}", t.desc, bytes.len()),
                    || must_fail(drive(read_from(vortex_buffer::Buffer::from(bytes.clone()), req, Some(cut as u64), 100), LIMIT)?, "a part of a file"),
                );
            }
        }
        // what a crash leaves when the size of the file is known but not its contents
        for cut in (0..bytes.len().saturating_sub(1)).filter(|c| c % 5 == q % 5 || c + 80 > bytes.len()) {
            let mut z = bytes[..cut].to_vec();
            z.resize(bytes.len(), 0);
            if z == bytes {
                continue;
            }
            ctx.check(|| format!("zeros|{}|{cut} of {}", t.desc, bytes.len()), || must_fail(read_bytes(&z, &Req::b(2), 100), "a file ending in zeros"));
        }
    });
    ctx.bound(format!("serialized streams of every type in every sequence of up to {n} batches, followed by 0 to 3 pages: cut at every single byte; read from memory, from a cursor, and through the futures and tokio adapters"));
    let streams: Vec<Batches> = fams.par_iter().flat_map(|f| sequences(f, n, 3)).collect();
    streams.par_iter().enumerate().for_each(|(q, b)| {
        let Ok(bytes) = b.bytes() else { return };
        // where each batch and page ends
        let Ok(lay) = drive(
            async {
                let mut w = es(StreamArrayWriter::new(vec![]).write_array_stream(vec_stream(b.dtype.clone(), b.parts.iter().map(|p| p.0.clone()).collect())).await)?;
                for p in &b.pages {
                    w = es(w.write_page(vortex_buffer::Buffer::from(bytes::Bytes::from(p.clone()))).await)?;
                }
                let mut ends = w.array_layouts()[0].chunks.byte_offsets.clone();
                ends.extend(w.page_ranges().iter().map(|r| r.end));
                Ok::<_, String>(ends)
            },
            LIMIT,
        )
        .and_then(|r| r) else {
            return;
        };
        ctx.state();
        ctx.tag(b.desc.split('[').next().unwrap());
        for cut in 0..bytes.len() {
            let left = &bytes[..cut];
            let whole = lay.iter().position(|e| *e == cut as u64);
            let how = (cut + q) % 4;
            ctx.check(
                || format!("stream|{}|{cut} of {}, {how}", b.desc, bytes.len()),
                || {
                    let g = match how {
                        0 => drive(pull_all(at_offset(left, 0)), LIMIT)?,
                        1 => drive(pull_all(io::Cursor::new(vortex_buffer::Buffer::from(left.to_vec()))), LIMIT)?,
                        2 => drive(pull_all(FuturesAdapter(Sched::new(left, vec![], Act::All))), LIMIT)?,
                        _ => drive(pull_all(TokioAdapter(Sched::new(left, vec![], Act::Short(61)))), LIMIT)?,
                    }?;
                    match whole {
                        None if g.2.is_none() => return Err(format!("no error, {} batches and {} pages", g.0.len(), g.1.len())),
                        Some(_) if g.2.is_some() => return Err(format!("error between batches: {:?}", g.2)),
                        _ => {}
                    }
                    let parts: Vec<Array> = b.parts.iter().map(|p| p.0.clone()).collect();
                    whole_prefix(&g.0, &parts)?;
                    if g.1.iter().zip(&b.pages).any(|(x, y)| x.as_slice() != y.as_slice()) || g.1.len() > b.pages.len() {
                        return Err("other pages".into());
                    }
                    if let Some(k) = whole {
                        if g.0.len() + g.1.len() != k {
                            return Err(format!("{} batches and pages instead of {k}", g.0.len() + g.1.len()));
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    ctx.bound("positions in a serialized stream that has been cut at every byte: rows at or beyond the cut are not read");
    let srcs = sources(ctx, &[int_mid(PType::I32, true), utf8_fam(true)], 4);
    srcs.par_iter().for_each(|s| {
        ctx.state();
        let last = s.at.chunks.byte_offsets.last().copied().unwrap_or(0) as usize;
        for cut in 0..last {
            for ix in [vec![0usize, 1, 2, 3], vec![0], vec![3]] {
                if s.col.len() == 0 {
                    continue;
                }
                let a = index_array(&ix, Ix::P(PType::U64)).unwrap();
                ctx.check(
                    || format!("ranges|{}|{cut} of {last}|{ix:?}", s.desc),
                    || {
                        let mut rd = es(ChunkedArrayReader::try_new(
                            vortex_buffer::Buffer::from(s.bytes[..cut].to_vec()),
                            all_context(),
                            Arc::new(s.dtype()),
                            offsets(&s.at.chunks.byte_offsets, 0),
                            offsets(&s.at.chunks.row_offsets, 0),
                        ))?;
                        match drive(rd.take_rows(&a), LIMIT)? {
                            Err(_) => Ok(()),
                            Ok(r) => rows_eq(&(r.dtype().clone(), vec![r]), &at(&s.col, &ix)),
                        }
                    },
                );
            }
        }
    });
    ctx.bound("a file of 9000 rows and one of 2000 chunks cut at every byte of the last 3000 and every 97th byte before");
    let big = |n: usize, per: usize| {
        let a = Col::new(prim(PType::I64, true), (0..n as i128).map(|i| if i % 11 == 3 { V::Null } else { V::of_int(PType::I64, i * 1000) }).collect());
        let batches = (0..n / per).map(|k| struct_of(&["v"], vec![plain(&a.slice(k * per, (k + 1) * per))], per)).collect();
        Tab { col: rows_of(&["v"], &[a], n), batches, desc: format!("{n} by {per}") }
    };
    for t in [big(9000, 9000), big(4000, 2)] {
        let Ok(bytes) = t.bytes() else { continue };
        ctx.state();
        let cuts: Vec<usize> = (0..bytes.len()).filter(|c| c % 97 == 0 || c + 3000 > bytes.len()).collect();
        cuts.par_iter().for_each(|cut| {
            ctx.check(|| format!("file|{}|{cut} of {}", t.desc, bytes.len()), || must_fail(read_bytes(&bytes[..*cut], &Req::b(1000), 10_000), "a part of a file"));
        });
    }
    ctx.bound("files of anything else: every string of up to 3 bytes out of 4, alone, and before, within and after the end of a valid file");
    let t = &tables(&int_mid(PType::I32, true), 1, Rich::Core)[2];
    let Ok(bytes) = t.bytes() else { return };
    let al = [0u8, 1, 0xff, b'V'];
    for k in 0..=3 {
        for s in seqs(&al, k) {
            ctx.check(|| format!("junk|{s:?}"), || must_fail(read_bytes(&s, &Req::b(1), 100), "junk"));
            // the last bytes say what they always say, at the end of a file of any size
            for keep in [4usize, 8, 12, 20, 40, 48, 60] {
                let tail = &bytes[bytes.len() - keep.min(bytes.len())..];
                let mut f = s.clone();
                f.extend_from_slice(tail);
                ctx.check(|| format!("tail|{s:?}+{keep}"), || must_fail(read_bytes(&f, &Req::b(1), 100), "the end of a file"));
            }
        }
    }
}

/// The batches and pages of a stream, and how reading it failed.
async fn pull_all<R: VortexRead>(r: R) -> Result<(Vec<Array>, Vec<vortex_buffer::Buffer>, Option<String>), String> {
    let rd = match StreamArrayReader::try_new(r, all_context()).await {
        Ok(r) => r,
        Err(e) => return Ok((vec![], vec![], Some(format!("{e}")))),
    };
    let mut rd = match rd.load_dtype().await {
        Ok(r) => r,
        Err(e) => return Ok((vec![], vec![], Some(format!("{e}")))),
    };
    let g = {
        let st = rd.array_stream();
        let d = st.dtype().clone();
        pull(d, st, 100).await?
    };
    let mut pages = vec![];
    let mut err = g.err;
    while err.is_none() {
        match rd.next_page().await {
            Ok(Some(p)) => pages.push(p),
            Ok(None) => break,
            Err(e) => err = Some(format!("{e}")),
        }
    }
    Ok((g.batches, pages, err))
}
