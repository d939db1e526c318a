//! C30 sources and sinks of bytes, C31 positions of messages.
use std::io::{self, Cursor};
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::Arc;
use std::task::{Context as Cx, Poll};

use bytes::BytesMut;
use futures_util::StreamExt;
use object_store::path::Path;
use object_store::ObjectStore;
use rayon::prelude::*;
use vortex::stream::ArrayStream;
use vortex::Array;
use vortex_buffer::io_buf::IoBuf;
use vortex_buffer::Buffer;
use vortex_dtype::DType;
use vortex_serde::io::offset::OffsetReadAt;
use vortex_serde::io::{FuturesAdapter, ObjectStoreExt, TokioAdapter, VortexRead, VortexReadAt, VortexWrite};
use vortex_serde::stream_reader::StreamArrayReader;
use vortex_serde::stream_writer::StreamArrayWriter;
use vortex_serde::DTypeReader;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_buf::{eqb, origins};
use crate::p_file::*;
use crate::p_wire::*;
use crate::report::{attempt, Ctx};

type Rt = tokio::runtime::Runtime;
fn runtime() -> Rt {
    tokio::runtime::Builder::new_current_thread().build().expect("a runtime")
}
fn ask(n: usize) -> BytesMut {
    let mut b = BytesMut::with_capacity(n + 7);
    b.resize(n, 0xEE);
    b
}
fn data(n: usize) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(7)).collect()
}

// positional sources -------------------------------------------------------------------------------

/// Every position and length around the bytes: they, or a refusal. `total`: far positions as well.
fn source<R: VortexReadAt + ?Sized>(ctx: &Ctx, rt: &Rt, name: &str, r: &R, w: &[u8]) {
    ctx.state();
    let n = w.len();
    ctx.check(|| format!("size|{name}|{n}"), || {
        let got = attempt(|| Ok(rt.block_on(r.size())))?;
        if got != n as u64 {
            return Err(format!("size {got} instead of {n}"));
        }
        Ok(())
    });
    let far = [u32::MAX as u64, 1 << 40, i64::MAX as u64, u64::MAX - 3, u64::MAX - 1, u64::MAX];
    for pos in (0..=n as u64 + 2).chain(far) {
        for len in 0..=n + 2 {
            ctx.check(|| format!("at|{name}|{n}|{pos}+{len}"), || {
                let got = attempt(|| rt.block_on(r.read_at_into(pos, ask(len))).map_err(|e| e.to_string()));
                let inside = pos.checked_add(len as u64).is_some_and(|e| e <= n as u64);
                match got {
                    Ok(b) if inside => eqb("read", &b, &w[pos as usize..pos as usize + len]),
                    // nothing, from nowhere
                    Ok(b) if len == 0 && b.is_empty() => Ok(()),
                    Ok(b) => Err(format!("{} bytes read beyond the end", b.len())),
                    Err(e) if inside && len > 0 => Err(format!("refused: {e}")),
                    Err(_) => Ok(()),
                }
            });
        }
    }
}

/// The same bytes through references, counted references and offsets.
fn sources<R: VortexReadAt + 'static>(ctx: &Ctx, rt: &Rt, name: &str, make: &dyn Fn(&[u8]) -> R, w: &[u8]) {
    let r = make(w);
    source(ctx, rt, name, &r, w);
    source(ctx, rt, &format!("&{name}"), &&r, w);
    let a = Arc::new(r);
    source(ctx, rt, &format!("arc {name}"), &a, w);
    source(ctx, rt, &format!("&arc {name}"), &&a, w);
    for k in 0..=w.len() {
        source(ctx, rt, &format!("{name} from {k}"), &OffsetReadAt::new(make(w), k as u64), &w[k..]);
        source(ctx, rt, &format!("arc {name} from {k}"), &OffsetReadAt::new(a.clone(), k as u64), &w[k..]);
        for j in 0..=w.len() - k {
            source(ctx, rt, &format!("{name} from {k} from {j}"), &OffsetReadAt::new(OffsetReadAt::new(make(w), k as u64), j as u64), &w[k + j..]);
        }
    }
}

// sequential sources -------------------------------------------------------------------------------

/// Reads these lengths one after another. `keeps`: a read that is refused leaves the source as it was.
fn reads<R: VortexRead>(rt: &Rt, mut r: R, w: &[u8], lens: &[usize], keeps: bool) -> Result<(), String> {
    let mut at = 0;
    for (k, n) in lens.iter().enumerate() {
        let got = attempt(|| rt.block_on(r.read_into(ask(*n))).map_err(|e| e.to_string()));
        match got {
            Ok(b) if at + n <= w.len() => {
                eqb(&format!("read {k}"), &b, &w[at..at + n])?;
                at += n;
            }
            Ok(b) => return Err(format!("read {k} gave {} bytes of {}", b.len(), w.len().saturating_sub(at))),
            Err(e) if at + n <= w.len() => return Err(format!("read {k} was refused: {e}")),
            Err(_) if keeps => {}
            Err(_) => return Ok(()),
        }
    }
    Ok(())
}

// sinks --------------------------------------------------------------------------------------------

#[derive(Clone, Debug)]
enum Put {
    Vec(usize),
    Static(usize),
    Buf(usize),
    Window(usize, usize, usize),
    Array,
    Flush,
}
const PUTS: [Put; 8] = [Put::Vec(0), Put::Vec(3), Put::Static(1), Put::Static(64), Put::Buf(5), Put::Window(9, 2, 7), Put::Array, Put::Flush];
static STATIC: [u8; 64] = [0x5A; 64];

async fn give<W: VortexWrite, B: IoBuf>(w: &mut W, make: impl Fn() -> B) -> Result<Vec<u8>, String> {
    let want = make().as_slice().to_vec();
    let back = w.write_all(make()).await.map_err(|e| format!("refused: {e}"))?;
    eqb("the buffer given back", back.as_slice(), &want)?;
    Ok(want)
}
async fn put<W: VortexWrite>(w: &mut W, p: &Put, salt: usize) -> Result<Vec<u8>, String> {
    let d = |n: usize| data(n + salt)[salt..].to_vec();
    match p {
        Put::Vec(n) => give(w, || d(*n)).await,
        Put::Static(n) => give(w, || &STATIC[..*n]).await,
        Put::Buf(n) => give(w, || Buffer::from(d(*n))).await,
        Put::Window(n, a, z) => give(w, || d(*n).slice_owned(*a..*z)).await,
        Put::Array => give(w, || (salt as u32 + 77).to_le_bytes()).await,
        Put::Flush => {
            w.flush().await.map_err(|e| format!("flush refused: {e}"))?;
            Ok(vec![])
        }
    }
}
/// All that was put, in order.
async fn puts<W: VortexWrite>(w: &mut W, seq: &[Put]) -> Result<Vec<u8>, String> {
    let mut all = vec![];
    for (k, p) in seq.iter().enumerate() {
        all.extend(put(w, p, k * 13).await?);
    }
    w.shutdown().await.map_err(|e| format!("shutdown refused: {e}"))?;
    Ok(all)
}

/// An asynchronous sink that takes a little at a time.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Take {
    All,
    One,
    Two,
    Pending,
    Zero,
    Fail,
}
struct Slow {
    got: Vec<u8>,
    plan: Vec<Take>,
    rest: Take,
    step: usize,
    faults: Arc<AtomicUsize>,
}
impl Slow {
    fn next(&mut self, cx: &mut Cx<'_>) -> Poll<Take> {
        let t = self.plan.get(self.step).copied().unwrap_or(self.rest);
        self.step += 1;
        match t {
            Take::Pending => {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            Take::Zero | Take::Fail => {
                self.faults.fetch_add(1, Relaxed);
            }
            _ => {}
        }
        Poll::Ready(t)
    }
}
impl tokio::io::AsyncWrite for Slow {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let n = match self.next(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(Take::Fail) => return Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "injected"))),
            Poll::Ready(Take::Zero) => 0,
            Poll::Ready(Take::One) => buf.len().min(1),
            Poll::Ready(Take::Two) => buf.len().min(2),
            Poll::Ready(_) => buf.len(),
        };
        self.got.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        match self.next(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Take::Fail) => Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "injected"))),
            Poll::Ready(Take::Zero) => {
                self.faults.fetch_sub(1, Relaxed);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(_) => Poll::Ready(Ok(())),
        }
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

pub fn c30(ctx: &Ctx) {
    let dir = std::env::temp_dir().join(format!("mc-c30-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("a scratch directory");
    let hi = if ctx.thorough { 17 } else { 9 };

    // positional
    let sizes: Vec<usize> = (0..=hi).chain([64, 65]).collect();
    sizes.par_iter().for_each(|n| {
        let rt = runtime();
        let w = data(*n);
        source(ctx, &rt, "[u8]", &w[..], &w);
        if *n <= hi {
            sources(ctx, &rt, "vec", &|w| w.to_vec(), &w);
            for i in 0..origins(&w).len() {
                let name = origins(&w)[i].0;
                if *n <= 3 {
                    sources(ctx, &rt, &format!("buffer {name}"), &|w| origins(w).swap_remove(i).1, &w);
                } else {
                    source(ctx, &rt, &format!("buffer {name}"), &origins(&w)[i].1, &w);
                }
            }
        }
        for a in 0..=*n {
            let b = Buffer::from(w.clone());
            source(ctx, &rt, &format!("buffer part {a}.."), &b.slice(a..*n), &w[a..]);
            let b = Buffer::from(bytes::Bytes::from(w.clone()));
            source(ctx, &rt, &format!("bytes part ..{a}"), &b.slice(0..a), &w[..a]);
        }
        // a file, and an object
        let p = dir.join(format!("at-{n}"));
        std::fs::write(&p, &w).expect("a scratch file");
        let file = |_: &[u8]| rt.block_on(tokio::fs::File::open(&p)).expect("a scratch file");
        let store: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
        rt.block_on(store.put(&Path::from("x"), w.clone().into())).expect("an object in memory");
        let store: &'static Arc<dyn ObjectStore> = Box::leak(Box::new(store));
        let at: &'static Path = Box::leak(Box::new(Path::from("x")));
        if *n <= 6 {
            sources(ctx, &rt, "file", &file, &w);
            sources(ctx, &rt, "object", &|_| store.vortex_reader(at), &w);
        } else if *n <= hi {
            source(ctx, &rt, "file", &file(&w), &w);
            source(ctx, &rt, "object", &store.vortex_reader(at), &w);
        }
    });
    ctx.bound(format!("sources of 0 to {hi}, 64 and 65 bytes (memory of every kind, files, objects; through references, counted references, up to two offsets): their size, and reads of every length at every position, up to 2 beyond the end and at the largest"));

    // sequential
    let lens: Vec<usize> = vec![0, 1, 2, 3, 5];
    let depth = if ctx.thorough { 7 } else { 5 };
    let orders: Vec<Vec<usize>> = (0..=depth).flat_map(|k| seqs(&lens, k)).collect();
    let w5: Vec<Vec<u8>> = (0..=5).map(data).collect();
    w5.par_iter().for_each(|w| {
        let rt = runtime();
        let n = w.len();
        let p = dir.join(format!("seq-{n}"));
        std::fs::write(&p, w).expect("a scratch file");
        let store: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
        rt.block_on(store.put(&Path::from("x"), w.clone().into())).expect("an object in memory");
        for o in &orders {
            ctx.state();
            ctx.check(|| format!("seq|bytes|{n}|{o:?}"), || reads(&rt, at_offset(w, 0), w, o, true));
            ctx.check(|| format!("seq|cursor vec|{n}|{o:?}"), || reads(&rt, Cursor::new(w.clone()), w, o, true));
            ctx.check(|| format!("seq|cursor slice|{n}|{o:?}"), || reads(&rt, Cursor::new(&w[..]), w, o, true));
            ctx.check(|| format!("seq|cursor buffer|{n}|{o:?}"), || reads(&rt, Cursor::new(Buffer::from(bytes::Bytes::from(w.clone()))), w, o, true));
            for k in 0..=n {
                ctx.check(|| format!("seq|cursor from {k}|{n}|{o:?}"), || {
                    let mut c = Cursor::new(Buffer::from(w.clone()));
                    c.set_position(k as u64);
                    reads(&rt, c, &w[k..], o, true)
                });
                ctx.check(|| format!("seq|offset {k}|{n}|{o:?}"), || reads(&rt, Cursor::new(OffsetReadAt::new(w.clone(), k as u64)), &w[k..], o, true));
            }
            for (act, name) in [(Act::All, "all"), (Act::Short(1), "1"), (Act::Short(2), "2")] {
                ctx.check(|| format!("seq|tokio {name}|{n}|{o:?}"), || reads(&rt, TokioAdapter(Sched::new(w, vec![], act)), w, o, false));
                ctx.check(|| format!("seq|futures {name}|{n}|{o:?}"), || reads(&rt, FuturesAdapter(Sched::new(w, vec![], act)), w, o, false));
                for at in 0..3 {
                    ctx.check(|| format!("seq|tokio {name} pending {at}|{n}|{o:?}"), || reads(&rt, TokioAdapter(Sched::new(w, vec![(at, Act::Pending)], act)), w, o, false));
                    ctx.check(|| format!("seq|futures {name} pending {at}|{n}|{o:?}"), || reads(&rt, FuturesAdapter(Sched::new(w, vec![(at, Act::Pending)], act)), w, o, false));
                }
            }
            if o.len() <= if ctx.thorough { 5 } else { 4 } {
                ctx.check(|| format!("seq|file|{n}|{o:?}"), || reads(&rt, rt.block_on(tokio::fs::File::open(&p)).map_err(|e| e.to_string())?, w, o, false));
                for a in 0..=n {
                    for z in a..=n {
                        ctx.check(|| format!("seq|object {a}..{z}|{n}|{o:?}"), || {
                            let at = Path::from("x");
                            let r = rt.block_on(store.vortex_read(&at, a..z));
                            match r {
                                Ok(r) => reads(&rt, r, &w[a..z], o, true),
                                // no such range: nothing to read
                                Err(_) if a == z => Ok(()),
                                Err(e) => Err(e.to_string()),
                            }
                        });
                    }
                }
            }
        }
    });
    ctx.bound(format!("sequences of up to {depth} reads of 0, 1, 2, 3 and 5 bytes from sources of 0 to 5 bytes: cursors over memory and offsets, ranges of objects, files, and the futures and tokio adapters over readers that give all, one or two bytes at a time or make one wait"));

    // sinks
    let depth = if ctx.thorough { 6 } else { 5 };
    let ids: Vec<usize> = (0..PUTS.len()).collect();
    let orders: Vec<Vec<Put>> = (0..=depth).flat_map(|k| seqs(&ids, k)).map(|s| s.into_iter().map(|i| PUTS[i].clone()).collect()).collect();
    orders.par_iter().enumerate().for_each(|(q, o)| {
        ctx.state();
        let rt = runtime();
        ctx.check(|| format!("sink|vec|{o:?}"), || {
            let mut v = vec![9u8, 8];
            let all = attempt(|| rt.block_on(puts(&mut v, o)))?;
            eqb("written", &v, &[&[9, 8], &all[..]].concat())
        });
        ctx.check(|| format!("sink|&mut vec|{o:?}"), || {
            let mut v = vec![];
            let all = attempt(|| rt.block_on(puts(&mut &mut v, o)))?;
            eqb("written", &v, &all)
        });
        for at in [0usize, 1, 4] {
            ctx.check(|| format!("sink|cursor at {at}|{o:?}"), || {
                let mut c = Cursor::new(vec![7u8; 3]);
                c.set_position(at as u64);
                let all = attempt(|| rt.block_on(puts(&mut c, o)))?;
                let mut want = vec![7u8; 3];
                if at > 3 && !all.is_empty() {
                    want.resize(at, 0);
                }
                for (i, b) in all.iter().enumerate() {
                    if at + i < want.len() {
                        want[at + i] = *b;
                    } else {
                        want.push(*b);
                    }
                }
                // where an empty write lies beyond the end the gap may have been filled
                if all.is_empty() && c.get_ref().len() > 3 {
                    want.resize(c.get_ref().len(), 0);
                }
                eqb("written", c.get_ref(), &want)
            });
        }
        for cap in [0usize, 3, 5, 12] {
            ctx.check(|| format!("sink|cursor of {cap}|{o:?}"), || {
                let mut c = Cursor::new(vec![0u8; cap].into_boxed_slice());
                let r = attempt(|| rt.block_on(puts(&mut c, o)));
                let mut v = vec![];
                let all = attempt(|| rt.block_on(puts(&mut v, o)))?;
                match r {
                    Ok(_) if all.len() > cap => Err("more written than there is room for".into()),
                    Ok(_) => eqb("written", &c.get_ref()[..all.len()], &all),
                    Err(e) if all.len() <= cap => Err(e),
                    Err(_) => Ok(()),
                }
            });
        }
        let slow = |plan: Vec<Take>, rest: Take| -> Result<(), String> {
            let faults = Arc::new(AtomicUsize::new(0));
            let mut s = TokioAdapter(Slow { got: vec![], plan, rest, step: 0, faults: faults.clone() });
            let r = drive(puts(&mut s, o), 100_000)?;
            let bad = faults.load(Relaxed) > 0;
            match r {
                Ok(_) if bad => Err("the failure is not reported".into()),
                Ok(all) => eqb("written", &s.0.got, &all),
                Err(_) if bad => Ok(()),
                Err(e) => Err(e),
            }
        };
        for rest in [Take::All, Take::One, Take::Two] {
            ctx.check(|| format!("sink|tokio {rest:?}|{o:?}"), || slow(vec![], rest));
            for t in [Take::Pending, Take::Zero, Take::Fail, Take::One] {
                for at in 0..if o.len() <= 3 { 8 } else { 3 } {
                    ctx.check(|| format!("sink|tokio {rest:?} {t:?} at {at}|{o:?}"), || {
                        let mut plan = vec![rest; at];
                        plan.push(t);
                        slow(plan, rest)
                    });
                }
            }
        }
        if o.len() <= 3 {
            let p = dir.join(format!("sink-{q}"));
            for twice in [false, true] {
                ctx.check(|| format!("sink|file {twice}|{o:?}"), || {
                    let mut f = rt.block_on(tokio::fs::File::create(&p)).map_err(|e| e.to_string())?;
                    let mut all = vec![];
                    if twice {
                        // through the adapter, and what comes later behind it
                        let mut t = TokioAdapter(f);
                        all.extend(attempt(|| rt.block_on(puts(&mut t, o)))?);
                        f = t.0;
                    }
                    all.extend(attempt(|| rt.block_on(puts(&mut f, o)))?);
                    eqb("written", &std::fs::read(&p).map_err(|e| e.to_string())?, &all)
                });
            }
            std::fs::remove_file(&p).ok();
            ctx.check(|| format!("sink|object|{o:?}"), || {
                let store: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
                let o = o.clone();
                object(&rt, &store, |w| Box::pin(async move { puts(w, &o).await }))
            });
        }
    });
    // as many bytes as an object has parts
    let mb = 1usize << 20;
    let mut big: Vec<Vec<usize>> = vec![vec![10 * mb], vec![10 * mb - 1, 1, 1], vec![10 * mb + 1], vec![6 * mb, 6 * mb, 6 * mb], vec![1, 10 * mb, 1], vec![21 * mb + 3]];
    if ctx.thorough {
        big.extend(seqs(&[mb, 5 * mb, 10 * mb - 1, 10 * mb, 10 * mb + 1, 20 * mb], 2));
        big.extend(seqs(&[1, 10 * mb - 1, 10 * mb], 3));
    }
    big.par_iter().for_each(|sizes| {
        for flush in [false, true] {
            ctx.check(|| format!("sink|object parts flush {flush}|{sizes:?}"), || {
                let rt = runtime();
                let store: Arc<dyn ObjectStore> = Arc::new(object_store::memory::InMemory::new());
                let sizes = sizes.clone();
                object(&rt, &store, move |w| {
                    Box::pin(async move {
                        let mut all = vec![];
                        for (k, n) in sizes.iter().enumerate() {
                            let d: Vec<u8> = (0..*n).map(|i| (i / 251 + i + k) as u8).collect();
                            all.extend(&d);
                            w.write_all(d).await.map_err(|e| e.to_string())?;
                            if flush {
                                w.flush().await.map_err(|e| e.to_string())?;
                            }
                        }
                        w.shutdown().await.map_err(|e| e.to_string())?;
                        Ok(all)
                    })
                })
            });
        }
    });
    ctx.bound(format!("sequences of up to {depth} writes of buffers of every kind (0 to 64 bytes, windows) and flushes, into memory, bounded memory, files, objects (up to three parts of 10 MiB) and a tokio sink that takes all, one or two bytes at a time, waits, takes nothing or fails at any of the first 8 steps"));

    // files that lie within other things
    let tabs: Vec<Tab> = small_tabs();
    tabs.par_iter().for_each(|t| {
        let rt = runtime();
        let Ok(bytes) = t.bytes() else { return };
        for k in [0usize, 1, 3, 8, 64, 100] {
            let mut w = data(k);
            w.extend(&bytes);
            let p = dir.join(format!("in-{k}-{}", t.desc.len()));
            ctx.check(|| format!("within|vec|{k}|{}", t.desc), || {
                let g = drive(read_from(OffsetReadAt::new(w.clone(), k as u64), &Req::b(2), None, 100), LIMIT)??;
                rows_eq(&g, &t.col)
            });
            ctx.check(|| format!("within|sized|{k}|{}", t.desc), || {
                let mut long = w.clone();
                long.extend(data(33));
                let g = drive(read_from(OffsetReadAt::new(Buffer::from(long), k as u64), &Req::b(3), Some(bytes.len() as u64), 100), LIMIT)??;
                rows_eq(&g, &t.col)
            });
            ctx.check(|| format!("within|arc|{k}|{}", t.desc), || {
                let g = drive(read_from(OffsetReadAt::new(OffsetReadAt::new(Arc::new(w.clone()), (k / 2) as u64), (k - k / 2) as u64), &Req::b(2), None, 100), LIMIT)??;
                rows_eq(&g, &t.col)
            });
            let _ = (&p, &rt);
        }
    });
    ctx.bound("files of a few tables that begin at an offset of 0 to 100 bytes within other bytes");
    std::fs::remove_dir_all(&dir).ok();
}

fn object(rt: &Rt, store: &Arc<dyn ObjectStore>, f: impl for<'a> FnOnce(&'a mut vortex_serde::io::ObjectStoreWriter) -> Pin<Box<dyn std::future::Future<Output = Result<Vec<u8>, String>> + 'a>>) -> Result<(), String> {
    let at = Path::from("y");
    let mp = rt.block_on(store.put_multipart(&at)).map_err(|e| e.to_string())?;
    let mut w = vortex_serde::io::ObjectStoreWriter::new(object_store::WriteMultipart::new_with_chunk_size(mp, 10 << 20));
    let all = attempt(|| rt.block_on(f(&mut w)))?;
    let got = rt.block_on(async { store.get(&at).await.map_err(|e| e.to_string())?.bytes().await.map_err(|e| e.to_string()) })?;
    if got.as_ref() != all.as_slice() {
        return Err(format!("the object has {} bytes, {} were written, or they differ", got.len(), all.len()));
    }
    // it is closed
    if attempt(|| rt.block_on(w.write_all(vec![1u8])).map(|_| ()).map_err(|e| e.to_string())).is_ok() {
        return Err("a closed object takes more bytes".into());
    }
    Ok(())
}

fn small_tabs() -> Vec<Tab> {
    let mut out = vec![];
    for f in [int_mid(vortex_dtype::PType::I32, true), utf8_fam(true), int_mid(vortex_dtype::PType::U64, false)] {
        let c = Col::new(f.dtype.clone(), f.alpha.iter().cycle().take(7).cloned().collect());
        let rows = rows_of(&["a"], &[c.clone()], 7);
        for (cuts, name) in [(vec![0, 7], "1"), (vec![0, 3, 3, 7], "3")] {
            let batches = cuts.windows(2).map(|w| struct_of(&["a"], vec![plain(&c.slice(w[0], w[1]))], w[1] - w[0])).collect();
            out.push(Tab { col: rows.clone(), batches, desc: format!("{}x{name}", f.name) });
        }
    }
    out
}

// C31 ----------------------------------------------------------------------------------------------

/// What a stream holds.
#[derive(Clone)]
enum Item {
    Arrays(DType, Vec<(Array, Col)>),
    Page(Vec<u8>),
}

async fn expect_batches<S: ArrayStream>(st: S, d: &DType, want: &[(Array, Col)]) -> Result<(), String> {
    if st.dtype() != d {
        return Err(format!("type {} instead of {d}", st.dtype()));
    }
    let mut st = std::pin::pin!(st);
    for (k, (_, c)) in want.iter().enumerate() {
        match st.next().await {
            None => return Err(format!("only {k} batches of {}", want.len())),
            Some(b) => same(&es(b)?, c).map_err(|m| format!("batch {k}: {m}"))?,
        }
    }
    if st.next().await.is_some() {
        return Err("an extra batch".into());
    }
    Ok(())
}

fn from_pos<'a>(bytes: &'a [u8], pos: u64, how: usize) -> Cursor<OffsetReadAt<&'a [u8]>> {
    let k = [0, pos, pos / 2][how % 3];
    let mut c = Cursor::new(OffsetReadAt::new(bytes, k));
    c.set_position(pos - k);
    c
}

async fn pages_at<R: VortexRead>(r: R, want: &[&Vec<u8>]) -> Result<(), String> {
    let mut rd = es(StreamArrayReader::try_new(r, all_context()).await)?;
    for (k, p) in want.iter().enumerate() {
        match es(rd.next_page().await)? {
            Some(b) => eqb(&format!("page {k}"), b.as_slice(), p)?,
            None => return Err(format!("only {k} pages of {}", want.len())),
        }
    }
    if es(rd.next_page().await)?.is_some() {
        return Err("an extra page".into());
    }
    Ok(())
}

fn positions(items: &[Item], how: usize) -> Result<(), String> {
    let (bytes, layouts, ranges) = drive(
        async {
            let mut w = StreamArrayWriter::new(vec![]);
            for i in items {
                w = match i {
                    Item::Arrays(d, p) if p.len() == 1 && how % 2 == 1 && !p[0].0.encoding().id().to_string().contains("chunked") => {
                        let _ = d;
                        es(w.write_array(p[0].0.clone()).await)?
                    }
                    Item::Arrays(d, p) => es(w.write_array_stream(vec_stream(d.clone(), p.iter().map(|x| x.0.clone()).collect())).await)?,
                    Item::Page(b) => es(w.write_page(Buffer::from(b.clone())).await)?,
                };
            }
            let (l, r) = (w.array_layouts().to_vec(), w.page_ranges().to_vec());
            Ok::<_, String>((w.into_inner(), l, r))
        },
        LIMIT,
    )??;
    // every item is where it is said to be, one behind another
    let (mut at, mut na, mut np) = (0u64, 0, 0);
    let moved = |what: &str, got: u64, want: u64| if got == want { Ok(()) } else { Err(format!("{what} at {got}, written at {want}")) };
    for (k, i) in items.iter().enumerate() {
        match i {
            Item::Arrays(d, parts) => {
                let l = layouts.get(na).ok_or("an array has no layout")?;
                na += 1;
                moved("type", l.dtype.begin, at)?;
                if l.dtype.end <= l.dtype.begin || l.dtype.len() as u64 != l.dtype.end - l.dtype.begin {
                    return Err("the type takes no bytes".into());
                }
                let (bo, ro) = (&l.chunks.byte_offsets, &l.chunks.row_offsets);
                if bo.len() != parts.len() + 1 || ro.len() != parts.len() + 1 {
                    return Err(format!("{} positions of {} batches", bo.len(), parts.len()));
                }
                moved("batches", bo[0], l.dtype.end)?;
                at = bo[parts.len()];
                let rows: Vec<u64> = std::iter::once(0).chain(parts.iter().scan(0, |s, p| { *s += p.1.len() as u64; Some(*s) })).collect();
                if *ro != rows {
                    return Err(format!("rows {ro:?} instead of {rows:?}"));
                }
                // the type alone, and on from there
                drive(
                    async {
                        let mut r = es(DTypeReader::new(from_pos(&bytes, l.dtype.begin, how)).await)?;
                        let got = es(r.read_dtype().await)?;
                        if got != *d {
                            return Err(format!("type {got} instead of {d}"));
                        }
                        // what follows is a type only where the next item is an array, and no batch lies between
                        let more = r.read_dtype().await;
                        match (items.get(k + 1), parts.is_empty(), more) {
                            (Some(Item::Arrays(d2, _)), true, Ok(g)) if g == *d2 => Ok(()),
                            (Some(Item::Arrays(..)), true, g) => Err(format!("the type behind is {g:?}")),
                            (_, _, Ok(g)) => Err(format!("there is no second type, not {g}")),
                            _ => Ok(()),
                        }
                    },
                    LIMIT,
                )??;
                // all batches from the type, and the rest of them from each
                drive(
                    async {
                        let rd = es(StreamArrayReader::try_new(from_pos(&bytes, l.dtype.begin, how), all_context()).await)?;
                        let mut rd = es(rd.load_dtype().await)?;
                        expect_batches(rd.array_stream(), d, parts).await?;
                        // asking again gives no more, and takes nothing from what follows
                        expect_batches(rd.array_stream(), d, &[]).await?;
                        let follow: Vec<&Vec<u8>> = items[k + 1..].iter().map_while(|i| if let Item::Page(p) = i { Some(p) } else { None }).collect();
                        for (j, p) in follow.iter().enumerate() {
                            match es(rd.next_page().await)? {
                                Some(b) => eqb(&format!("page {j} behind"), b.as_slice(), p)?,
                                None => return Err("a page behind the batches is missing".to_string()),
                            }
                            expect_batches(rd.array_stream(), d, &[]).await?;
                        }
                        if es(rd.next_page().await)?.is_some() {
                            return Err("an extra page".into());
                        }
                        Ok(())
                    },
                    LIMIT,
                )??;
                for j in 0..=parts.len() {
                    if bo[j] as usize > bytes.len() || (j > 0 && bo[j] <= bo[j - 1]) {
                        return Err(format!("batch {j} ends at {}", bo[j]));
                    }
                    drive(
                        async {
                            let mut rd = es(StreamArrayReader::try_new(from_pos(&bytes, bo[j], how + j), all_context()).await)?.with_dtype(Arc::new(d.clone()));
                            expect_batches(rd.array_stream(), d, &parts[j..]).await?;
                            let rd = es(StreamArrayReader::try_new(from_pos(&bytes, bo[j], how), all_context()).await)?.with_dtype(Arc::new(d.clone()));
                            expect_batches(rd.into_array_stream(), d, &parts[j..]).await
                        },
                        LIMIT,
                    )?
                    .map_err(|m| format!("from batch {j}: {m}"))?;
                    // and this one alone
                    if j < parts.len() {
                        let alone = &bytes[bo[j] as usize..bo[j + 1] as usize];
                        drive(
                            async {
                                let rd = es(StreamArrayReader::try_new(at_offset(alone, 0), all_context()).await)?.with_dtype(Arc::new(d.clone()));
                                expect_batches(rd.into_array_stream(), d, &parts[j..j + 1]).await
                            },
                            LIMIT,
                        )?
                        .map_err(|m| format!("batch {j} alone: {m}"))?;
                    }
                }
            }
            Item::Page(p) => {
                let r = ranges.get(np).ok_or("a page has no range")?;
                np += 1;
                moved("page", r.begin, at)?;
                at = r.end;
                let want: Vec<&Vec<u8>> = items[k..].iter().map_while(|i| if let Item::Page(p) = i { Some(p) } else { None }).collect();
                drive(pages_at(from_pos(&bytes, r.begin, how), &want), LIMIT)??;
                let end = r.end as usize;
                if end > bytes.len() || end <= r.begin as usize {
                    return Err("a page ends beyond the stream".into());
                }
                drive(pages_at(at_offset(&bytes[r.begin as usize..end], 0), &[p]), LIMIT)?.map_err(|m| format!("page alone: {m}"))?;
                // pages as a stream
                drive(
                    async {
                        let mut rd = es(StreamArrayReader::try_new(from_pos(&bytes, r.begin, how), all_context()).await)?;
                        let st = rd.page_stream().await;
                        let mut st = std::pin::pin!(st);
                        for (j, p) in want.iter().enumerate() {
                            match st.next().await {
                                Some(b) => eqb(&format!("page {j} of the stream"), es(b)?.as_slice(), p)?,
                                None => return Err("the stream of pages ends early".to_string()),
                            }
                        }
                        if st.next().await.is_some() {
                            return Err("an extra page in the stream".into());
                        }
                        Ok(())
                    },
                    LIMIT,
                )??;
                // it is neither a type nor a batch
                drive(
                    async {
                        if es(DTypeReader::new(from_pos(&bytes, r.begin, how)).await)?.read_dtype().await.is_ok() {
                            return Err("a page is read as a type".to_string());
                        }
                        Ok(())
                    },
                    LIMIT,
                )??;
            }
        }
    }
    if at != bytes.len() as u64 || na != layouts.len() || np != ranges.len() {
        return Err(format!("{} bytes, {na} arrays and {np} pages written; positions up to {at} of {} and {}", bytes.len(), layouts.len(), ranges.len()));
    }
    // nothing is left at the end
    drive(pages_at(from_pos(&bytes, at, how), &[]), LIMIT)??;
    Ok(())
}

pub fn c31(ctx: &Ctx) {
    let fams = all_fams(false);
    let n = if ctx.thorough { 5 } else { 4 };
    let sizes = [0usize, 1, 63, 64, 65, 130];
    // items: arrays of no, one and several batches of a family and of another, pages
    fams.par_iter().enumerate().for_each(|(fi, f)| {
        let g = &fams[(fi * 7 + 3) % fams.len()];
        let batches = |f: &Fam, k: usize, salt: usize| -> Item {
            let mut v = f.alpha.clone();
            if f.dtype.is_nullable() && f.dtype != DType::Null {
                v.insert(0, V::Null);
            }
            let parts = (0..k)
                .map(|j| {
                    let c = Col::new(f.dtype.clone(), v.iter().cycle().skip(salt + j).take([3, 0, 1, 67][(salt + j) % 4].min(if v.is_empty() { 0 } else { 67 })).cloned().collect());
                    let e = encs_of(&c, Rich::More);
                    (e[(salt * 5 + j * 3) % e.len()].1.clone(), c)
                })
                .collect();
            Item::Arrays(f.dtype.clone(), parts)
        };
        let alphabet: Vec<Box<dyn Fn(usize) -> Item + Sync>> = vec![
            Box::new(move |_| batches(f, 0, 0)),
            Box::new(move |s| batches(f, 1, s)),
            Box::new(move |s| batches(f, 3, s)),
            Box::new(move |s| batches(g, 2, s)),
            Box::new(move |s| Item::Page(data(sizes[s % 6]))),
            Box::new(move |s| Item::Page(data(sizes[(s + 2) % 6]))),
        ];
        let ids: Vec<usize> = (0..alphabet.len()).collect();
        let all: Vec<Vec<usize>> = (0..=n).flat_map(|k| seqs(&ids, k)).collect();
        all.par_iter().enumerate().for_each(|(q, s)| {
            ctx.state();
            let key = || format!("at|{}|{s:?}|{q}", f.name);
            ctx.sample(key);
            ctx.check(key, || {
                let items: Vec<Item> = s.iter().enumerate().map(|(j, i)| alphabet[*i](q + j)).collect();
                positions(&items, q)
            });
        });
    });
    ctx.bound(format!("streams of up to {n} items out of arrays of 0, 1 and 3 batches of each type, of 2 batches of another, and pages of 0 to 130 bytes: every reported position of a type, batch and page, read on from there and alone"));
}
