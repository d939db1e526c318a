//! C32 an array's parts account for all of it.
use std::sync::Arc;

use futures_util::StreamExt;
use vortex::array::visitor::ArrayVisitor;
use vortex::array::*;
use vortex::iter::ArrayIterator;
use vortex::stream::ArrayStream;
use vortex::{Array, ArrayDType, ArrayData};
use vortex_buffer::Buffer;
use vortex_dtype::{DType, PType};
use vortex_error::VortexResult;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_core::*;
use crate::p_wire::*;
use crate::report::Ctx;

#[derive(Default)]
struct Seen {
    kids: Vec<Array>,
    buffers: Vec<Buffer>,
}
impl ArrayVisitor for Seen {
    fn visit_child(&mut self, _name: &str, array: &Array) -> VortexResult<()> {
        self.kids.push(array.clone());
        Ok(())
    }
    fn visit_buffer(&mut self, buffer: &Buffer) -> VortexResult<()> {
        self.buffers.push(buffer.clone());
        Ok(())
    }
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got != want {
        return Err(format!("{what} is {got:?} instead of {want:?}"));
    }
    Ok(())
}
fn sig(a: &Array) -> String {
    format!("{}({}, {})", a.encoding().id(), a.dtype(), a.len())
}

/// The nodes of the tree in the order a reader meets them.
fn walk(a: &Array, out: &mut Vec<Array>) {
    out.push(a.clone());
    for k in a.children() {
        walk(&k, out);
    }
}

/// The parts of this array alone.
fn node(a: &Array) -> Result<(), String> {
    let kids = a.children();
    eq("the number of children", a.nchildren(), kids.len())?;
    let mut s = Seen::default();
    a.with_dyn(|x| x.accept(&mut s)).map_err(|e| e.to_string())?;
    eq("children visited", s.kids.iter().map(sig).collect::<Vec<_>>(), kids.iter().map(sig).collect())?;
    for (v, k) in s.kids.iter().zip(&kids) {
        if let Some(d) = diff(&observe(v)?, &observe(k)?) {
            return Err(format!("a visited child differs: {d}"));
        }
    }
    eq("buffers visited", s.buffers.iter().map(|b| b.as_slice().to_vec()).collect::<Vec<_>>(), a.buffer().map(|b| b.as_slice().to_vec()).into_iter().collect())?;
    if let (Some(x), Some(y)) = (a.buffer(), a.clone().into_buffer()) {
        eq("the buffer taken", y.as_slice(), x.as_slice())?;
    }
    for (i, k) in kids.iter().enumerate() {
        let c = a.child(i, k.dtype(), k.len()).map_err(|e| e.to_string())?;
        eq("a child asked for", sig(&c), sig(k))?;
    }
    if crate::report::guard(|| a.child(kids.len(), a.dtype(), a.len()).is_ok()).unwrap_or(false) {
        return Err("there is a child behind the last".into());
    }
    let own = (a.nbytes() as u64).checked_sub(a.children().iter().map(|k| k.nbytes() as u64).sum()).ok_or("smaller than its children")?;
    let buf = a.buffer().map_or(0, |b| b.len() as u64);
    // the padding of packed integers isn't counted
    let least = match vortex_fastlanes::BitPackedArray::try_from(a) {
        Ok(b) => (b.bit_width() as u64 * b.len() as u64).div_ceil(8),
        Err(_) => buf,
    };
    if own < least || own > buf.max(least) {
        return Err(format!("the size without the children is {own} instead of {buf}"));
    }
    let m = a.with_dyn(|x| [x.as_null_array().is_some(), x.as_bool_array().is_some(), x.as_primitive_array().is_some(), x.as_utf8_array().is_some(), x.as_binary_array().is_some(), x.as_struct_array().is_some(), x.as_list_array().is_some(), x.as_extension_array().is_some()]);
    let d = a.dtype();
    let w = match d {
        DType::Null => 0,
        DType::Bool(_) => 1,
        DType::Primitive(..) => 2,
        DType::Utf8(_) => 3,
        DType::Binary(_) => 4,
        DType::Struct(..) => 5,
        DType::List(..) => 6,
        DType::Extension(..) => 7,
    };
    if !m[w] {
        return Err(format!("does not act as {d}"));
    }
    if a.with_dyn(|x| x.dtype() != d || x.len() != a.len() || x.is_empty() != a.is_empty()) {
        return Err("the encoding sees another type or length".into());
    }
    Ok(())
}

fn whole(a: &Array) -> Result<Vec<Array>, String> {
    let mut all = vec![];
    walk(a, &mut all);
    let bufs: Vec<Buffer> = all.iter().filter_map(|x| x.buffer().cloned()).collect();
    eq("traversal", a.depth_first_traversal().map(|x| sig(&x)).collect::<Vec<_>>(), all.iter().map(sig).collect())?;
    eq("the number of buffers", a.cumulative_nbuffers(), bufs.len())?;
    for al in [1usize, 8, 64, 128] {
        let got = a.all_buffer_offsets(al);
        let mut want = vec![0u64];
        for b in &bufs {
            want.push(want.last().unwrap() + (b.len().div_ceil(al) * al) as u64);
        }
        eq("offsets of the buffers", got, want)?;
    }
    let shown = a.to_string();
    eq("as shown", shown.trim_start_matches('$').to_string(), format!("{}({}, len={})", a.encoding().id(), a.dtype(), a.len()))?;
    let tree = a.tree_display().to_string();
    eq("lines of the tree", tree.lines().filter(|l| l.contains(" nbytes=")).count(), all.len())?;
    eq("buffers of the tree", tree.lines().filter(|l| l.trim_start().starts_with("buffer: ")).count(), bufs.len())?;
    Ok(all)
}

/// The same array put together from its parts.
fn again(a: &Array) -> Result<Array, String> {
    let kids: Vec<Array> = a.children().iter().map(again).collect::<Result<_, _>>()?;
    let d = ArrayData::from(a.clone());
    let r = ArrayData::try_new(a.encoding(), a.dtype().clone(), a.len(), d.metadata().clone(), a.buffer().cloned(), kids.into(), Default::default());
    Ok(r.map_err(|e| e.to_string())?.into())
}

macro_rules! kinds {
    ($a:expr, $all:expr, $($t:ty = $e:expr),* $(,)?) => {
        $(
            let is = $a.encoding().id() == vortex::encoding::ArrayEncoding::id(&$e);
            if <$t>::try_from($a).is_ok() != is || <$t>::try_from($a.clone()).is_ok() != is || $a.is_encoding(vortex::encoding::ArrayEncoding::id(&$e)) != is {
                return Err(format!("{} taken for {}: {}", $a.encoding().id(), stringify!($t), !is));
            }
            $all += is as usize;
        )*
    };
}
fn kind(a: &Array) -> Result<(), String> {
    let mut n = 0;
    kinds!(a, n,
        NullArray = NullEncoding, BoolArray = BoolEncoding, PrimitiveArray = PrimitiveEncoding, StructArray = StructEncoding,
        VarBinArray = VarBinEncoding, VarBinViewArray = VarBinViewEncoding, ExtensionArray = ExtensionEncoding, SparseArray = SparseEncoding,
        ConstantArray = ConstantEncoding, ChunkedArray = ChunkedEncoding,
        vortex_alp::ALPArray = vortex_alp::ALPEncoding, vortex_alp::ALPRDArray = vortex_alp::ALPRDEncoding,
        vortex_bytebool::ByteBoolArray = vortex_bytebool::ByteBoolEncoding, vortex_datetime_parts::DateTimePartsArray = vortex_datetime_parts::DateTimePartsEncoding,
        vortex_dict::DictArray = vortex_dict::DictEncoding, vortex_fastlanes::BitPackedArray = vortex_fastlanes::BitPackedEncoding,
        vortex_fastlanes::DeltaArray = vortex_fastlanes::DeltaEncoding, vortex_fastlanes::FoRArray = vortex_fastlanes::FoREncoding,
        vortex_fsst::FSSTArray = vortex_fsst::FSSTEncoding, vortex_roaring::RoaringBoolArray = vortex_roaring::RoaringBoolEncoding,
        vortex_roaring::RoaringIntArray = vortex_roaring::RoaringIntEncoding, vortex_runend::RunEndArray = vortex_runend::RunEndEncoding,
        vortex_runend_bool::RunEndBoolArray = vortex_runend_bool::RunEndBoolEncoding, vortex_zigzag::ZigZagArray = vortex_zigzag::ZigZagEncoding,
    );
    eq("encodings it is of", n, 1)?;
    match all_context().lookup_encoding(a.encoding().id().code()) {
        Some(e) if e.id() == a.encoding().id() => Ok(()),
        Some(e) => Err(format!("the number of {} is that of {}", a.encoding().id(), e.id())),
        None => Ok(()),
    }
}

fn parts(a: &Array, c: &Col) -> Result<(), String> {
    let all = whole(a)?;
    for x in &all {
        node(x)?;
        kind(x)?;
    }
    let b = again(a)?;
    same(&b, c).map_err(|m| format!("put together from its parts: {m}"))?;
    eq("the size put together", b.nbytes(), a.nbytes())?;
    let data: Array = a.with_dyn(|x| x.to_array_data()).into();
    same(&data, c).map_err(|m| format!("as owned data: {m}"))?;
    eq("the tree as owned data", data.depth_first_traversal().map(|x| sig(&x)).collect::<Vec<_>>(), all.iter().map(sig).collect())?;
    // as an iterator and a stream of itself
    let it = a.clone().into_array_iterator();
    eq("type of the iterator", it.dtype(), a.dtype())?;
    let v: Vec<Array> = it.collect::<VortexResult<_>>().map_err(|e| e.to_string())?;
    eq("arrays of the iterator", v.len(), 1)?;
    same(&v[0], c)?;
    drive(
        async {
            let st = a.clone().into_array_stream();
            eq("type of the stream", st.dtype(), a.dtype())?;
            let mut st = std::pin::pin!(st);
            let x = st.next().await.ok_or("the stream is empty")?.map_err(|e| e.to_string())?;
            same(&x, c)?;
            if st.next().await.is_some() {
                return Err("the stream goes on".to_string());
            }
            Ok::<(), String>(())
        },
        10_000,
    )?
}

pub fn c32(ctx: &Ctx) {
    let hi = if ctx.thorough { 4 } else { 3 };
    let each = |s: &Subject, pre: &[Op], views: bool| {
        let Some((a, c)) = run_ops(s, pre) else { return };
        ctx.check(|| s.key("parts", &format!("[{}]", path(pre))), || parts(&a, &c));
        if views {
            let Ok(v) = write_one(&a).and_then(|b| read_one(&b, 0)) else { return };
            ctx.check(|| s.key("parts", &format!("[{}]view", path(pre))), || {
                eq("the tree read back", v.depth_first_traversal().map(|x| sig(&x)).collect::<Vec<_>>(), a.depth_first_traversal().map(|x| sig(&x)).collect())?;
                eq("the size read back", v.nbytes(), a.nbytes())?;
                parts(&v, &c)
            });
        }
    };
    explore(ctx, small(ctx.thorough, 0, hi), if ctx.thorough { Rich::Full } else { Rich::More }, |s| {
        let pres = preludes(s.col.len());
        let h = s.col.len() + s.enc.len();
        for (i, pre) in pres.iter().enumerate() {
            if pre.is_empty() || ctx.thorough || (h + i) % 3 == 0 {
                each(s, pre, pre.is_empty() || (h + i) % 2 == 0);
            }
        }
    });
    ctx.bound(format!("columns of length 0..={hi} in every encoding, after slices, takes and filters, in memory and read back from bytes: children, buffers, sizes, offsets, traversal, printed tree, and the array put together again from its parts"));
    let cols = long_subset(ctx, &[PType::U16, PType::I32, PType::F64], &[1025]);
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        for pre in [vec![], vec![Op::Slice(1, n)], vec![Op::Slice(1000, n - 1)]] {
            each(s, &pre, true);
        }
    });
    ctx.bound("columns of 1025 elements, whole and sliced");
    let _ = Arc::new(());
}
