//! Operations on arrays, their meaning on the model, and the exploration driver.
use std::sync::Arc;

use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::{filter, slice, take};
use vortex::{Array, IntoArray};
use vortex_dtype::{DType, PType};

use crate::gen::*;
use crate::model::*;
use crate::report::{attempt, Ctx};

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Slice(usize, usize),
    Take(Vec<usize>, Ix),
    Filter(Vec<bool>, Mk),
}

/// How the index array of a take is represented.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ix {
    P(PType),
    Chunked,
    BitPacked,
    Dict,
    Sliced,
    Constant,
}
/// How the mask of a filter is represented.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mk {
    Plain,
    Sliced,
    ByteBool,
    RunEnd,
    RunEndSliced,
    Roaring,
    Chunked,
    Sparse,
    Constant,
}
pub const MASKS: [Mk; 9] = [
    Mk::Plain, Mk::Sliced, Mk::ByteBool, Mk::RunEnd, Mk::RunEndSliced, Mk::Roaring, Mk::Chunked, Mk::Sparse, Mk::Constant,
];
pub const IXS: [Ix; 13] = [
    Ix::P(PType::U64), Ix::P(PType::U32), Ix::P(PType::U16), Ix::P(PType::U8), Ix::P(PType::I64), Ix::P(PType::I32),
    Ix::P(PType::I16), Ix::P(PType::I8), Ix::Chunked, Ix::BitPacked, Ix::Dict, Ix::Sliced, Ix::Constant,
];

pub fn es<T>(r: vortex_error::VortexResult<T>) -> Result<T, String> {
    r.map_err(|e| format!("error: {}", format!("{e}").lines().next().unwrap_or("")))
}

pub fn index_array(ix: &[usize], how: Ix) -> Option<Array> {
    let col = |p: PType| Col::new(prim(p, false), ix.iter().map(|x| V::of_int(p, *x as i128)).collect());
    let m = ix.iter().max().copied().unwrap_or(0);
    Some(match how {
        Ix::P(p) => {
            if m as i128 > imax(p) {
                return None;
            }
            plain(&col(p))
        }
        Ix::Chunked => chunked_with(&col(PType::U64), &[ix.len() / 2, ix.len()], |_, c| Ok(plain(c))).ok()?,
        Ix::BitPacked => bitpack(plain(&col(PType::U32)), 13).ok()?,
        Ix::Dict => dict(&plain(&col(PType::U16))).ok()?,
        Ix::Sliced => {
            let mut v = vec![V::of_int(PType::I32, 0); 3];
            v.extend(col(PType::I32).vals);
            let a = plain(&Col::new(prim(PType::I32, false), v));
            slice(&a, 3, 3 + ix.len()).ok()?
        }
        Ix::Constant => {
            if ix.is_empty() || ix.iter().any(|x| *x != ix[0]) {
                return None;
            }
            ConstantArray::new(ix[0] as u64, ix.len()).into_array()
        }
    })
}

pub fn bool_col(m: &[bool]) -> Col {
    Col::new(DType::Bool(nn(false)), m.iter().map(|b| V::B(*b)).collect())
}

pub fn mask_array(m: &[bool], how: Mk) -> Option<Array> {
    let c = bool_col(m);
    let n = m.len();
    Some(match how {
        Mk::Plain => plain(&c),
        Mk::Sliced => {
            let mut v = vec![true, false, true];
            v.extend(m);
            v.extend([true; 6]);
            slice(plain(&bool_col(&v)), 3, 3 + n).ok()?
        }
        Mk::ByteBool => bytebool(&c).ok()?.0,
        Mk::RunEnd => attempt(|| es(runend_bool(&c, Fill::Zero, PType::U64))).ok()?,
        Mk::RunEndSliced => {
            let mut v = vec![true, false, true];
            v.extend(m);
            v.extend([true; 2]);
            attempt(|| es(runend_bool(&bool_col(&v), Fill::Zero, PType::U32).and_then(|a| slice(a, 3, 3 + n)))).ok()?
        }
        Mk::Roaring => vortex_roaring::RoaringBoolArray::encode(plain(&c)).ok()?,
        Mk::Chunked => chunked_with(&c, &[n / 2, n / 2, n], |_, c| Ok(plain(c))).ok()?,
        Mk::Sparse => {
            if n == 0 {
                return None;
            }
            sparse(&c, &V::B(false)).ok()?
        }
        Mk::Constant => {
            if n == 0 || m.iter().any(|x| *x != m[0]) {
                return None;
            }
            ConstantArray::new(m[0], n).into_array()
        }
    })
}

pub fn apply_model(c: &Col, op: &Op) -> Col {
    match op {
        Op::Slice(a, b) => c.slice(*a, *b),
        Op::Take(ix, _) => c.take(ix),
        Op::Filter(m, _) => c.filter(m),
    }
}

/// None: the operand representation does not exist for this operand.
pub fn apply_impl(a: &Array, op: &Op) -> Option<Result<Array, String>> {
    Some(match op {
        Op::Slice(x, y) => attempt(|| es(slice(a, *x, *y))),
        Op::Take(ix, how) => {
            let i = index_array(ix, *how)?;
            attempt(|| es(take(a, &i)))
        }
        Op::Filter(m, how) => {
            let m = mask_array(m, *how)?;
            attempt(|| es(filter(a, &m)))
        }
    })
}

pub fn opname(op: &Op) -> &'static str {
    match op {
        Op::Slice(..) => "slice",
        Op::Take(..) => "take",
        Op::Filter(..) => "filter",
    }
}
pub fn opstr(op: &Op) -> String {
    match op {
        Op::Slice(a, b) => format!("s{a}..{b}"),
        Op::Take(ix, how) => format!("t{:?}{}", short_list(ix), how_str(&format!("{how:?}"))),
        Op::Filter(m, how) => format!(
            "f{}{}",
            if m.len() <= 24 { m.iter().map(|b| if *b { '1' } else { '0' }).collect::<String>() } else { mask_sig(m) },
            how_str(&format!("{how:?}"))
        ),
    }
}
fn how_str(s: &str) -> String {
    if s == "Plain" || s == "P(U64)" { String::new() } else { format!(":{s}") }
}
fn short_list(ix: &[usize]) -> String {
    if ix.len() <= 24 {
        format!("{ix:?}")
    } else {
        format!("[{},{},..{};n={}]", ix[0], ix[1], ix[ix.len() - 1], ix.len())
    }
}
fn mask_sig(m: &[bool]) -> String {
    let t = m.iter().filter(|b| **b).count();
    let f = m.iter().position(|b| *b);
    let l = m.iter().rposition(|b| *b);
    format!("[{t}/{} first={f:?} last={l:?}]", m.len())
}
pub fn path(ops: &[Op]) -> String {
    ops.iter().map(opstr).collect::<Vec<_>>().join(",")
}

// operand enumerations -------------------------------------------------------------------------

pub fn all_slices(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for a in 0..=n {
        for b in a..=n {
            v.push(Op::Slice(a, b));
        }
    }
    v
}
pub fn hot_slices(n: usize) -> Vec<Op> {
    let h = hot(n);
    let mut v = vec![];
    for a in &h {
        for b in &h {
            if a <= b {
                v.push(Op::Slice(*a, *b));
            }
        }
    }
    v
}
/// Ranges far behind the first block.
pub fn far_slices(n: usize) -> Vec<Op> {
    let h: Vec<usize> = [0, 1, 255, 1023, 2048, 2500, 3071, 4096, 65_535, 65_536].into_iter().filter(|i| *i <= n).collect();
    let e: Vec<usize> = [256, 2049, 3000, 3072, 4097, 65_536].into_iter().chain(n.saturating_sub(2)..=n).filter(|i| *i <= n).collect();
    h.iter().flat_map(|a| e.iter().filter(move |b| a <= *b).map(move |b| Op::Slice(*a, *b))).collect()
}
pub fn far_at(n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = [0, 1, 5, 8, 254, 255, 256, 257, 1002, 1023, 1024, 2047, 2048, 2049, 2999, 3071, 3072, 3073, 4095, 4096, 65_534, 65_535, 65_536, 65_537].into_iter().chain(n.saturating_sub(2)..n).filter(|i| *i < n).collect();
    v.sort();
    v.dedup();
    v
}
pub fn slices_for(n: usize) -> Vec<Op> {
    if n <= 40 { all_slices(n) } else { hot_slices(n) }
}
pub fn takes_for(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v: Vec<Vec<usize>> = vec![vec![]];
    if n == 0 {
        return v;
    }
    if n <= 40 {
        let pos: Vec<usize> = (0..n).collect();
        for l in 1..=k {
            v.extend(seqs(&pos, l));
        }
        if n > 2 || k < n {
            v.push((0..n).collect());
            v.push((0..n).rev().collect());
            v.push((0..n).chain(0..n).collect());
        }
    } else {
        let h: Vec<usize> = hot(n).into_iter().filter(|i| *i < n).collect();
        for i in &h {
            v.push(vec![*i]);
            for j in &h {
                v.push(vec![*i, *j]);
            }
        }
        v.push(h.clone());
        v.push(h.iter().rev().copied().collect());
        v.push((0..n).collect());
        v.push((0..n).rev().collect());
        v.push((0..n).step_by(7).collect());
        v.push((0..n).filter(|i| i % 1024 < 20).collect());
        v.push((n.saturating_sub(40)..n).collect());
        v.push((0..n).filter(|i| i % 1024 > 1000).flat_map(|i| [i, i]).collect());
        v.push(vec![n - 1; 30]);
        v.push(h.iter().flat_map(|i| vec![*i; 9]).collect());
    }
    v.dedup();
    v
}
pub fn masks_for(n: usize) -> Vec<Vec<bool>> {
    if n <= 8 {
        return seqs(&[false, true], n);
    }
    let h: Vec<usize> = hot(n).into_iter().filter(|i| *i < n).collect();
    let mut v = vec![vec![true; n], vec![false; n]];
    for i in &h {
        v.push((0..n).map(|k| k == *i).collect());
        v.push((0..n).map(|k| k != *i).collect());
        v.push((0..n).map(|k| k < *i).collect());
        v.push((0..n).map(|k| k >= *i).collect());
    }
    v.push((0..n).map(|k| h.contains(&k)).collect());
    v.push((0..n).map(|k| k % 2 == 0).collect());
    v.push((0..n).map(|k| k % 3 == 1).collect());
    v.push((0..n).map(|k| (k / 64) % 2 == 1).collect());
    v
}

// driver ---------------------------------------------------------------------------------------

pub struct Subject {
    pub col: Arc<Col>,
    pub enc: String,
    pub arr: Array,
}
impl Subject {
    pub fn key(&self, op: &str, detail: &str) -> String {
        format!("{op}|{}|{}|{detail}", self.enc, self.col.desc())
    }
}

/// Encode each column in every way and hand the results to `f`, in parallel. Encoders that refuse
/// are counted; encoders that panic or alter the input are reported by C01 only, and their output is not used
/// elsewhere (an array that does not hold the column it was made from would blame the wrong property).
pub fn explore(ctx: &Ctx, cols: Vec<Col>, rich: Rich, f: impl Fn(&Subject) + Sync) {
    cols.into_par_iter().for_each(|c| {
        let c = Arc::new(c);
        for (enc, r) in encodings(&c, rich) {
            match r {
                Err(_) => ctx.refuse(&base_enc(&enc)),
                Ok(arr) => {
                    ctx.state();
                    let s = Subject { col: c.clone(), enc, arr };
                    if let Some(o) = &ctx.only {
                        // keys start with op|enc|column
                        if !o.contains(&format!("|{}|{}|", s.enc, s.col.desc())) {
                            continue;
                        }
                    }
                    ctx.tag(&base_enc(&s.enc));
                    ctx.sample(|| format!("{} {}", s.enc, s.col.desc()));
                    f(&s);
                }
            }
        }
    });
}
pub fn base_enc(e: &str) -> String {
    e.split('(').next().unwrap_or(e).trim_end_matches("+g").to_string()
}

pub fn same(got: &Array, want: &Col) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("length {} instead of {}", got.len(), want.len()));
    }
    let g = observe(got)?;
    match diff(&g, want) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}
