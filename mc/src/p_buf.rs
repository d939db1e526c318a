//! C29 byte buffers, buffer strings, windows for I/O.
use std::ops::Range;

use flexbuffers::Buffer as FlexBuffer;
use rayon::prelude::*;
use vortex_buffer::io_buf::IoBuf;
use vortex_buffer::{Buffer, BufferString};

use crate::gen::seqs;
use crate::report::{attempt, guard, Ctx};

/// Every kind of memory a buffer may wrap, holding these bytes.
pub fn origins(b: &[u8]) -> Vec<(&'static str, Buffer)> {
    let with_ends = |pre: usize, post: usize| {
        let mut v = vec![0xAAu8; pre];
        v.extend_from_slice(b);
        v.extend(std::iter::repeat(0xBB).take(post));
        v
    };
    let n = b.len();
    let mut out = vec![
        ("slice", Buffer::from(b)),
        ("vec", Buffer::from(b.to_vec())),
        ("bytes", Buffer::from(bytes::Bytes::from(b.to_vec()))),
        ("bytes-copy", Buffer::from(bytes::Bytes::copy_from_slice(b))),
        ("bytes-static", Buffer::from(bytes::Bytes::from_static(Box::leak(b.to_vec().into_boxed_slice())))),
        ("bytes-part", Buffer::from(bytes::Bytes::from(with_ends(3, 2)).slice(3..3 + n))),
        ("bytes-mut", Buffer::from({
            let mut m = bytes::BytesMut::with_capacity(n + 9);
            m.extend_from_slice(b);
            m.freeze()
        })),
        ("arrow", Buffer::from(arrow_buffer::Buffer::from(b))),
        ("arrow-part", Buffer::from(arrow_buffer::Buffer::from_vec(with_ends(5, 1)).slice_with_length(5, n))),
        ("arrow-mut", Buffer::from({
            let mut m = arrow_buffer::MutableBuffer::new(n);
            m.extend_from_slice(b);
            m
        })),
    ];
    if n % 2 == 0 {
        out.push(("vec-u16", Buffer::from(b.chunks(2).map(|c| u16::from_ne_bytes([c[0], c[1]])).collect::<Vec<_>>())));
    }
    if n % 4 == 0 {
        out.push(("vec-i32", Buffer::from(b.chunks(4).map(|c| i32::from_ne_bytes(c.try_into().unwrap())).collect::<Vec<_>>())));
    }
    if n % 8 == 0 {
        out.push(("vec-u64", Buffer::from(b.chunks(8).map(|c| u64::from_ne_bytes(c.try_into().unwrap())).collect::<Vec<_>>())));
        out.push(("vec-f64", Buffer::from(b.chunks(8).map(|c| f64::from_ne_bytes(c.try_into().unwrap())).collect::<Vec<_>>())));
    }
    if b.iter().all(|x| *x == 0) {
        out.push(("zeroed", Buffer::from_len_zeroed(n)));
    }
    out
}

pub fn eqb(what: &str, got: &[u8], want: &[u8]) -> Result<(), String> {
    if got != want {
        return Err(format!("{what} is {got:?} instead of {want:?}"));
    }
    Ok(())
}
fn ok(c: bool, m: &str) -> Result<(), String> {
    if c {
        Ok(())
    } else {
        Err(m.to_string())
    }
}

/// Everything a buffer shows of itself.
fn shows(b: &Buffer, want: &[u8]) -> Result<(), String> {
    if b.len() != want.len() || b.is_empty() != want.is_empty() {
        return Err(format!("length is {} (empty: {}) instead of {}", b.len(), b.is_empty(), want.len()));
    }
    eqb("as_slice", b.as_slice(), want)?;
    eqb("deref", b, want)?;
    eqb("as_ref", b.as_ref(), want)?;
    eqb("I/O slice", IoBuf::as_slice(b), want)?;
    if b.bytes_init() != want.len() {
        return Err(format!("bytes_init is {} instead of {}", b.bytes_init(), want.len()));
    }
    ok(want.is_empty() || b.read_ptr() == b.as_slice().as_ptr(), "read_ptr does not point at the bytes")?;
    let c = b.clone();
    eqb("clone", c.as_slice(), want)?;
    ok(c == *b && *b == c, "a clone differs")
}

fn native<T: arrow_buffer::ArrowNativeType>(b: &Buffer, want: &[u8]) -> Result<bool, String> {
    match b.clone().into_vec::<T>() {
        Ok(v) => {
            let got = unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(&v[..])) };
            eqb("into_vec", got, want)?;
            Ok(true)
        }
        Err(b) => {
            eqb("the buffer a refused into_vec gives back", b.as_slice(), want)?;
            Ok(false)
        }
    }
}
/// Without another owner the vector may be taken from the buffer itself.
fn native_alone<T: arrow_buffer::ArrowNativeType>(make: &dyn Fn() -> Buffer, want: &[u8]) -> Result<(), String> {
    match make().into_vec::<T>() {
        Ok(v) => eqb("into_vec", unsafe { std::slice::from_raw_parts(v.as_ptr() as *const u8, std::mem::size_of_val(&v[..])) }, want),
        Err(b) => eqb("the buffer a refused into_vec gives back", b.as_slice(), want),
    }
}

/// A step from a buffer to another.
#[derive(Clone, Debug, PartialEq)]
enum St {
    Slice(usize, usize),
    Flex(usize, usize),
    Arrow,
    Bytes,
    Str,
    Vec8,
}
fn steps(n: usize) -> Vec<St> {
    let mut v = vec![St::Arrow, St::Bytes, St::Str, St::Vec8];
    for a in 0..=n {
        for b in a..=n {
            v.push(St::Slice(a, b));
        }
    }
    for (a, b) in [(0, n), (0, n.min(1)), (n / 2, n), (n, n)] {
        v.push(St::Flex(a, b));
    }
    v
}
/// None: the step does not apply.
fn run(b: &Buffer, w: &[u8], s: &St) -> Result<Option<(Buffer, Vec<u8>)>, String> {
    Ok(Some(match s {
        St::Slice(a, z) => (b.slice(*a..*z), w[*a..*z].to_vec()),
        St::Flex(a, z) => {
            let got = FlexBuffer::slice(b, *a..*z);
            if a >= z {
                if let Some(g) = &got {
                    eqb("empty flexbuffer slice", g, &[])?;
                }
                return Ok(None);
            }
            (got.ok_or("a flexbuffer slice in range was refused")?, w[*a..*z].to_vec())
        }
        St::Arrow => {
            let a = b.clone().into_arrow();
            eqb("Arrow buffer", a.as_slice(), w)?;
            (Buffer::from(a), w.to_vec())
        }
        St::Bytes => (Buffer::from(bytes::Bytes::copy_from_slice(b.as_slice())), w.to_vec()),
        St::Str => {
            let valid = std::str::from_utf8(w);
            let flex = FlexBuffer::buffer_str(b);
            ok(flex.is_ok() == valid.is_ok(), "buffer_str accepts other than UTF-8")?;
            match (BufferString::try_from(b.clone()), valid) {
                (Ok(s), Ok(t)) => {
                    ok(s.as_str() == t && &*s == t && AsRef::<str>::as_ref(&s) == t && &*flex.unwrap() == t, "string differs from its bytes")?;
                    ok(s == BufferString::from(t.to_string()) && s.clone() == s, "equal strings differ")?;
                    (Buffer::from(s), w.to_vec())
                }
                (Err(_), Err(_)) => return Ok(None),
                (r, v) => return Err(format!("BufferString from bytes that are UTF-8: {} was accepted: {}", v.is_ok(), r.is_ok())),
            }
        }
        St::Vec8 => match b.clone().into_vec::<u8>() {
            Ok(v) => (Buffer::from(v), w.to_vec()),
            Err(b) => (b, w.to_vec()),
        },
    }))
}

fn outside(n: usize) -> Vec<Range<usize>> {
    #[allow(clippy::reversed_empty_ranges)]
    let mut v = vec![0..n + 1, n..n + 1, n + 1..n + 1, n + 1..n + 3, n + 2..n + 2, 0..usize::MAX, usize::MAX..usize::MAX];
    for a in 0..=n {
        for b in 0..a {
            v.push(a..b);
        }
    }
    v
}

fn walk(ctx: &Ctx, path: &str, b: &Buffer, w: &[u8], depth: usize) {
    ctx.state();
    ctx.check(|| path.to_string(), || shows(b, w));
    for r in outside(w.len()) {
        ctx.check(|| format!("{path}|slice-{r:?}"), || match guard(|| b.slice(r.clone())) {
            Err(_) => Ok(()),
            Ok(s) => Err(format!("a slice outside {} bytes was given as {} bytes", w.len(), s.len())),
        });
        ctx.check(|| format!("{path}|flex-{r:?}"), || match guard(|| FlexBuffer::slice(b, r.clone())) {
            Err(_) | Ok(None) => Ok(()),
            Ok(Some(s)) => Err(format!("a flexbuffer slice outside {} bytes was given as {} bytes", w.len(), s.len())),
        });
    }
    ctx.check(|| format!("{path}|into_vec"), || {
        native::<u8>(b, w)?;
        native::<i8>(b, w)?;
        native::<u16>(b, w)?;
        native::<i32>(b, w)?;
        native::<f32>(b, w)?;
        native::<u64>(b, w)?;
        native::<f64>(b, w)?;
        native::<i128>(b, w)?;
        Ok(())
    });
    if depth == 0 {
        return;
    }
    for s in steps(w.len()) {
        let key = format!("{path}.{s:?}");
        let mut next = None;
        ctx.check(|| key.clone(), || run(b, w, &s).map(|r| next = r));
        if let (St::Slice(a, _), Some((b2, _))) = (&s, &next) {
            // Typed arrays are read off slices in place, empty ones too.
            ctx.check(
                || format!("{key}|alignment"),
                || {
                    let (p, q) = (b.as_slice().as_ptr() as usize, b2.as_slice().as_ptr() as usize);
                    match [2usize, 4, 8, 16].into_iter().find(|k| p % k == 0 && a % k == 0 && q % k != 0) {
                        None => Ok(()),
                        Some(k) => Err(format!("a slice at {a} of a buffer aligned to {k} is not")),
                    }
                },
            );
        }
        if let Some((b2, w2)) = next {
            walk(ctx, &key, &b2, &w2, depth - 1);
        }
    }
}

// windows ----------------------------------------------------------------------------------------

fn window<T: IoBuf>(ctx: &Ctx, path: &str, make: &dyn Fn() -> T, w: &[u8]) {
    let see = |b: &dyn Fn(&T) -> Result<(), String>| b(&make());
    ctx.check(|| path.to_string(), || {
        see(&|b| {
            eqb("window", b.as_slice(), w)?;
            if b.bytes_init() != w.len() {
                return Err(format!("bytes_init is {} instead of {}", b.bytes_init(), w.len()));
            }
            ok(b.read_ptr() == b.as_slice().as_ptr(), "read_ptr does not point at the window")
        })
    });
}
fn windows<T: IoBuf>(ctx: &Ctx, path: &str, make: &dyn Fn() -> T, w: &[u8], inner: &dyn Fn(&T) -> Vec<u8>, full: &[u8]) {
    ctx.state();
    window(ctx, path, make, w);
    let n = w.len();
    for r in outside(n) {
        ctx.check(|| format!("{path}|window-{r:?}"), || match guard(|| make().slice_owned(r.clone()).bytes_init()) {
            Err(_) => Ok(()),
            Ok(k) => Err(format!("a window outside {n} bytes was given as {k} bytes")),
        });
    }
    for a in 0..=n {
        for b in a..=n {
            let p1 = format!("{path}.window({a}..{b})");
            ctx.state();
            window(ctx, &p1, &|| make().slice_owned(a..b), &w[a..b]);
            ctx.check(|| format!("{p1}|inner"), || eqb("the buffer inside", &inner(&make().slice_owned(a..b).into_inner()), full));
            for r in outside(b - a) {
                ctx.check(|| format!("{p1}|window-{r:?}"), || match guard(|| make().slice_owned(a..b).slice_owned(r.clone()).bytes_init()) {
                    Err(_) => Ok(()),
                    Ok(k) => Err(format!("a window outside {} bytes was given as {k} bytes", b - a)),
                });
            }
            for c in 0..=(b - a) {
                for d in c..=(b - a) {
                    let p2 = format!("{p1}.window({c}..{d})");
                    ctx.state();
                    window(ctx, &p2, &|| make().slice_owned(a..b).slice_owned(c..d), &w[a + c..a + d]);
                    for (e, f) in [(0, d - c), (0, 0), (d - c, d - c), ((d - c) / 2, d - c), (0, (d - c).min(1))] {
                        ctx.state();
                        window(ctx, &format!("{p2}.window({e}..{f})"), &|| make().slice_owned(a..b).slice_owned(c..d).slice_owned(e..f), &w[a + c + e..a + c + f]);
                    }
                    ctx.check(|| format!("{p2}|inner"), || {
                        eqb("the buffer inside", &inner(&make().slice_owned(a..b).slice_owned(c..d).into_inner().into_inner()), full)
                    });
                }
            }
        }
    }
}
fn fixed<const N: usize>(ctx: &Ctx, w: &[u8]) {
    if w.len() == N {
        let arr: [u8; N] = w.try_into().unwrap();
        windows(ctx, &format!("array|{w:?}"), &|| arr, w, &|b| b.to_vec(), w);
    }
}

pub fn c29(ctx: &Ctx) {
    let letters = [0u8, 1, 0x80, 0xC3];
    let hi = if ctx.thorough { 5 } else { 4 };
    let mut small: Vec<Vec<u8>> = vec![];
    for n in 0..=hi {
        small.extend(seqs(&letters, n));
    }
    // every buffer, all chains of steps
    let depth = 2;
    small.par_iter().for_each(|w| {
        for (o, b) in origins(w) {
            walk(ctx, &format!("{o}|of({w:?})"), &b, w, if w.len() <= 3 { depth } else { 1 });
        }
    });
    ctx.bound(format!("all contents over {letters:?} up to {hi} bytes in every kind of memory; all chains of up to {depth} slices and conversions (1 beyond 3 bytes)"));

    let long: Vec<Vec<u8>> = [8usize, 15, 16, 17, 24, 32, 40]
        .iter()
        .map(|n| (0..*n).map(|i| (i * 37 + 11) as u8 & 0x7F).collect())
        .chain([vec![0u8; 16], "h\u{e9}llo \u{1F600} w\u{f6}rld!".as_bytes().to_vec()])
        .collect();
    long.par_iter().for_each(|w| {
        for (o, b) in origins(w) {
            walk(ctx, &format!("{o}|of({w:?})"), &b, w, if ctx.thorough && w.len() <= 17 { 2 } else { 1 });
        }
        for i in 0..origins(w).len() {
            let name = origins(w)[i].0;
            for a in 0..=w.len() {
                for z in a..=w.len() {
                    let make = || {
                        let b = origins(w).swap_remove(i).1;
                        if (a, z) == (0, w.len()) {
                            b
                        } else {
                            b.slice(a..z)
                        }
                    };
                    ctx.check(|| format!("{name}|of({w:?}).Slice({a}, {z})|into_vec-alone"), || {
                        native_alone::<u8>(&make, &w[a..z])?;
                        native_alone::<u16>(&make, &w[a..z])?;
                        native_alone::<i32>(&make, &w[a..z])?;
                        native_alone::<u64>(&make, &w[a..z])?;
                        native_alone::<f64>(&make, &w[a..z])
                    });
                }
            }
        }
    });
    ctx.bound("longer contents (8 to 40 bytes, UTF-8 text), every slice of them, as native vectors of every width");

    // equality and order are those of the contents, whatever the memory
    let cmp: Vec<&Vec<u8>> = small.iter().filter(|w| w.len() <= 3).collect();
    cmp.par_iter().for_each(|w| {
        let ow = origins(w);
        for x in &cmp {
            let ox = origins(x);
            for (na, a) in &ow {
                for (nb, b) in &ox {
                    ctx.check(|| format!("order|{na}|{w:?}|{nb}|{x:?}"), || {
                        ok((a == b) == (w == x) && (a != b) == (w != x), "equality is not that of the bytes")?;
                        ok(a.partial_cmp(b) == Some(w.cmp(x)), "order is not that of the bytes")
                    });
                }
            }
            if let (Ok(s), Ok(t)) = (std::str::from_utf8(w), std::str::from_utf8(x)) {
                ctx.check(|| format!("order|string|{w:?}|{x:?}"), || {
                    let (a, b) = (BufferString::from(s.to_string()), BufferString::from(t.to_string()));
                    ok((a == b) == (s == t), "string equality is not that of the text")?;
                    ok(a.partial_cmp(&b) == Some(s.cmp(t)), "string order is not that of the text")
                });
            }
        }
    });
    ctx.bound("all pairs of contents up to 3 bytes, in all pairs of memories: equality and order");

    // also where they share the memory
    let shared: Vec<Vec<u8>> = seqs(&[0u8, 1], 3).into_iter().chain(seqs(&[0u8, 1], 4)).chain([b"abcabcab".to_vec(), vec![0; 8]]).collect();
    shared.par_iter().for_each(|w| {
        let n = w.len();
        let cuts: Vec<(usize, usize)> = (0..=n).flat_map(|a| (a..=n).map(move |z| (a, z))).collect();
        for (o, b) in origins(w) {
            for (a, z) in &cuts {
                let x = b.slice(*a..*z);
                for (c, d) in &cuts {
                    let (y, p, q) = (b.slice(*c..*d), &w[*a..*z], &w[*c..*d]);
                    ctx.check(|| format!("order|{o}|{w:?}|{a}..{z}|{c}..{d}"), || {
                        ok((x == y) == (p == q) && (x != y) == (p != q), "equality of two parts of a buffer is not that of the bytes")?;
                        ok(x.partial_cmp(&y) == Some(p.cmp(q)), "order of two parts of a buffer is not that of the bytes")
                    });
                    if let (Ok(s), Ok(t)) = (BufferString::try_from(x.clone()), BufferString::try_from(y.clone())) {
                        ctx.check(|| format!("order|string|{o}|{w:?}|{a}..{z}|{c}..{d}"), || {
                            ok((s == t) == (p == q), "equality of two parts of a string is not that of the text")?;
                            ok(s.partial_cmp(&t) == Some(p.cmp(q)), "order of two parts of a string is not that of the text")
                        });
                    }
                }
            }
        }
    });
    ctx.bound("all pairs of parts of the same memory of 3, 4 and 8 bytes: equality and order");

    // UTF-8: all one and two byte contents, and three and four byte ones around the boundaries
    let edge = [0x00u8, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xFF];
    let all: Vec<u8> = (0..=255).collect();
    let mut texts: Vec<Vec<u8>> = seqs(&all, 1);
    texts.extend(seqs(&all, 2));
    texts.extend(seqs(&edge, 3));
    texts.extend(seqs(&edge, 4));
    texts.par_iter().for_each(|w| {
        for b in [Buffer::from(w.clone()), Buffer::from(bytes::Bytes::from(w.clone()))] {
            ctx.check(|| format!("utf8|{w:?}"), || {
                match std::str::from_utf8(w) {
                    Ok(t) => ok(attempt(|| BufferString::try_from(b.clone()).map_err(|e| e.to_string()))?.as_str() == t, "string differs from its bytes"),
                    Err(_) => ok(BufferString::try_from(b.clone()).is_err(), "bytes that are not UTF-8 accepted as a string"),
                }
            });
        }
    });
    ctx.bound("validity of text: all contents of 1 and 2 bytes, and of 3 and 4 bytes over the boundaries of UTF-8");

    // windows
    let ws: Vec<Vec<u8>> = (0..=if ctx.thorough { 7usize } else { 5 }).map(|n| (0..n).map(|i| (i as u8 + 1) * 17).collect()).collect();
    for w in &ws {
        let st: &'static [u8] = Box::leak(w.clone().into_boxed_slice());
        windows(ctx, &format!("static|{w:?}"), &|| st, w, &|b| b.to_vec(), w);
        windows(ctx, &format!("vec|{w:?}"), &|| w.clone(), w, &|b| b.clone(), w);
        windows(ctx, &format!("vec-capacity|{w:?}"), &|| { let mut v = Vec::with_capacity(64); v.extend_from_slice(w); v }, w, &|b| b.clone(), w);
        for i in 0..origins(w).len() {
            windows(ctx, &format!("buffer-{}|{w:?}", origins(w)[i].0), &|| origins(w).swap_remove(i).1, w, &|b| b.to_vec(), w);
        }
        fixed::<0>(ctx, w);
        fixed::<1>(ctx, w);
        fixed::<2>(ctx, w);
        fixed::<3>(ctx, w);
        fixed::<4>(ctx, w);
        fixed::<5>(ctx, w);
    }
    ctx.bound("all windows, and windows within them, three deep, of every kind of memory; ranges outside are refused");
}
