//! C24: types, their serialized forms, and projection. C25: scalars.
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use flatbuffers::FlatBufferBuilder;
use prost::Message;
use rayon::prelude::*;
use serde::{Deserialize, Serialize};
use vortex::{Array, ArrayDType};
use vortex_buffer::{Buffer, BufferString};
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::field::{Field, FieldPath};
use vortex_dtype::flatbuffers as fbd;
use vortex_dtype::half::f16;
use vortex_dtype::{DType, ExtDType, ExtID, ExtMetadata, NativePType, PType, StructDType};
use vortex_flatbuffers::{FlatBufferToBytes, WriteFlatBuffer};
use vortex_proto::dtype as pbd;
use vortex_scalar::*;
use vortex_schema::projection::Projection;
use vortex_schema::Schema;

use crate::gen::*;
use crate::model::*;
use crate::ops::same;
use crate::report::*;

fn es<A, E: std::fmt::Display>(r: Result<A, E>) -> Result<A, String> {
    r.map_err(|e| e.to_string())
}

/// A type, described independently of the library.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T {
    Null,
    Bool(bool),
    Prim(PType, bool),
    Utf8(bool),
    Bin(bool),
    Struct(Vec<(String, T)>, bool),
    List(Box<T>, bool),
    Ext(String, Option<Vec<u8>>, bool),
}

const PTYPES: [PType; 11] =
    [PType::U8, PType::U16, PType::U32, PType::U64, PType::I8, PType::I16, PType::I32, PType::I64, PType::F16, PType::F32, PType::F64];

impl T {
    fn build(&self) -> DType {
        match self {
            T::Null => DType::Null,
            T::Bool(n) => DType::Bool(nn(*n)),
            T::Prim(p, n) => DType::Primitive(*p, nn(*n)),
            T::Utf8(n) => DType::Utf8(nn(*n)),
            T::Bin(n) => DType::Binary(nn(*n)),
            T::Struct(fs, n) => DType::Struct(sdt(fs), nn(*n)),
            T::List(e, n) => DType::List(Arc::new(e.build()), nn(*n)),
            T::Ext(id, m, n) => DType::Extension(ExtDType::new(ExtID::from(id.as_str()), m.as_ref().map(|m| ExtMetadata::from(m.as_slice()))), nn(*n)),
        }
    }
    /// Compared field by field, not with the library's equality.
    fn is(&self, d: &DType) -> bool {
        let m = |n: &bool, x: &vortex_dtype::Nullability| matches!(x, vortex_dtype::Nullability::Nullable) == *n;
        match (self, d) {
            (T::Null, DType::Null) => true,
            (T::Bool(n), DType::Bool(x)) | (T::Utf8(n), DType::Utf8(x)) | (T::Bin(n), DType::Binary(x)) => m(n, x),
            (T::Prim(p, n), DType::Primitive(q, x)) => pno(*p) == pno(*q) && m(n, x),
            (T::Struct(fs, n), DType::Struct(s, x)) => {
                m(n, x)
                    && s.names().len() == fs.len()
                    && s.dtypes().len() == fs.len()
                    && fs.iter().zip(s.names().iter()).all(|(f, n)| f.0.as_str() == n.as_ref())
                    && fs.iter().zip(s.dtypes().iter()).all(|(f, d)| f.1.is(d))
            }
            (T::List(e, n), DType::List(d, x)) => m(n, x) && e.is(d),
            (T::Ext(id, meta, n), DType::Extension(e, x)) => {
                m(n, x) && e.id().as_ref() == id.as_str() && e.metadata().map(|m| m.as_ref()) == meta.as_deref()
            }
            _ => false,
        }
    }
    fn nullable(&self) -> bool {
        match self {
            T::Null => true,
            T::Bool(n) | T::Prim(_, n) | T::Utf8(n) | T::Bin(n) | T::Struct(_, n) | T::List(_, n) | T::Ext(_, _, n) => *n,
        }
    }
    fn with(&self, b: bool) -> T {
        let mut t = self.clone();
        match &mut t {
            T::Null => {}
            T::Bool(n) | T::Prim(_, n) | T::Utf8(n) | T::Bin(n) | T::Struct(_, n) | T::List(_, n) | T::Ext(_, _, n) => *n = b,
        }
        t
    }
}
fn pno(p: PType) -> u8 {
    match p {
        PType::U8 => 0,
        PType::U16 => 1,
        PType::U32 => 2,
        PType::U64 => 3,
        PType::I8 => 4,
        PType::I16 => 5,
        PType::I32 => 6,
        PType::I64 => 7,
        PType::F16 => 8,
        PType::F32 => 9,
        PType::F64 => 10,
    }
}
fn sdt(fs: &[(String, T)]) -> StructDType {
    StructDType::new(fs.iter().map(|f| Arc::from(f.0.as_str())).collect::<Vec<_>>().into(), fs.iter().map(|f| f.1.build()).collect())
}

fn leaves(full: bool) -> Vec<T> {
    let mut v = vec![T::Null];
    for n in [false, true] {
        v.push(T::Bool(n));
        for p in PTYPES {
            v.push(T::Prim(p, n));
        }
        v.push(T::Utf8(n));
        v.push(T::Bin(n));
        for id in ["vortex.date", "", "é\u{0}x"] {
            for m in [None, Some(vec![]), Some(vec![0]), Some(vec![255, 0, 1]), Some((0..=255).chain(0..=40).collect())] {
                if !full && (id == "" && m.as_ref().is_some_and(|m: &Vec<u8>| m.len() > 1)) {
                    continue;
                }
                v.push(T::Ext(id.into(), m, n));
            }
        }
    }
    v
}
fn rep_leaves() -> Vec<T> {
    vec![
        T::Null,
        T::Bool(true),
        T::Prim(PType::U8, false),
        T::Prim(PType::F16, true),
        T::Prim(PType::I64, true),
        T::Utf8(false),
        T::Utf8(true),
        T::Bin(true),
        T::Ext("x".into(), Some(vec![7]), false),
        T::Ext("x".into(), None, true),
    ]
}
const NAMES: [&[&str]; 4] = [&["a", "b", "c"], &["x", "x", "x"], &["", "é", "a\u{0}b"], &["b", "a", "b"]];
fn long_name() -> String {
    "n".repeat(300)
}
fn structs_of(ts: &[T], arity: usize, schemes: &[&[&str]]) -> Vec<T> {
    let mut v = vec![];
    for fs in seqs(ts, arity) {
        for (k, s) in schemes.iter().enumerate() {
            v.push(T::Struct(fs.iter().enumerate().map(|(i, t)| (s[i].to_string(), t.clone())).collect(), (k + fs.len()) % 2 == 0));
            if arity < 2 {
                v.push(T::Struct(fs.iter().enumerate().map(|(i, t)| (s[i].to_string(), t.clone())).collect(), (k + fs.len()) % 2 == 1));
            }
        }
    }
    v
}
fn lists_of(ts: &[T]) -> Vec<T> {
    ts.iter().flat_map(|t| [false, true].map(|n| T::List(Box::new(t.clone()), n))).collect()
}

/// All types explored.
fn universe(thorough: bool) -> Vec<T> {
    let l0 = leaves(thorough);
    let mut v = l0.clone();
    v.extend(lists_of(&l0));
    v.push(T::Struct(vec![], false));
    v.push(T::Struct(vec![], true));
    v.push(T::Struct(vec![(long_name(), T::Bool(false))], true));
    v.extend(structs_of(&l0, 1, &NAMES));
    v.extend(structs_of(&l0, 2, &NAMES[..if thorough { 4 } else { 2 }]));
    // depth 2 and 3 over representatives
    let r0 = rep_leaves();
    let mut r1 = vec![T::Struct(vec![], true)];
    r1.extend(lists_of(&r0));
    r1.extend(structs_of(&r0, 1, &NAMES[..1]));
    r1.extend(structs_of(&r0[..if thorough { 7 } else { 4 }], 2, &NAMES[1..2]));
    v.extend(lists_of(&r1));
    v.extend(structs_of(&r1, 1, &NAMES));
    let mut mix: Vec<T> = r0.iter().step_by(2).cloned().collect();
    mix.extend(r1.iter().step_by(if thorough { 2 } else { 5 }).cloned());
    v.extend(structs_of(&mix, 2, &NAMES[..if thorough { 3 } else { 1 }]));
    v.extend(structs_of(&mix.iter().step_by(if thorough { 3 } else { 4 }).cloned().collect::<Vec<_>>(), 3, &NAMES[..2]));
    let r2: Vec<T> = lists_of(&r1).into_iter().step_by(3).chain(structs_of(&r1, 1, &NAMES[..1]).into_iter().step_by(3)).collect();
    v.extend(lists_of(&r2));
    v.extend(structs_of(&r2, 1, &NAMES[..2]));
    // deep nesting
    for kind in 0..3 {
        let mut t = T::Prim(PType::I16, true);
        for d in 0..20 {
            t = if kind == 0 || kind == 2 && d % 2 == 0 { T::List(Box::new(t), d % 3 == 0) } else { T::Struct(vec![("f".into(), t)], d % 3 == 0) };
            v.push(t.clone());
        }
    }
    // wide
    v.push(T::Struct((0..300).map(|i| (format!("c{i}"), l0[i % l0.len()].clone())).collect(), false));
    v
}

fn hash_of<H: Hash>(h: &H) -> u64 {
    let mut s = DefaultHasher::new();
    h.hash(&mut s);
    s.finish()
}
fn must(t: &T, d: &DType) -> Result<(), String> {
    if t.is(d) {
        Ok(())
    } else {
        Err(format!("recovered {d:?}").chars().take(300).collect())
    }
}

pub fn c24(ctx: &Ctx) {
    let u = universe(true);
    u.par_iter().for_each(|t| {
        ctx.state();
        let d = t.build();
        ctx.sample(|| format!("{t:?}").chars().take(160).collect());
        let key = |op: &str| format!("{op}|{t:?}").chars().take(400).collect::<String>();
        ctx.check(|| key("built"), || must(t, &d));
        ctx.check(|| key("flatbuffers"), || {
            let b = d.with_flatbuffer_bytes(|b| b.to_vec());
            must(t, &es(DType::try_from(es(flatbuffers::root::<fbd::DType>(&b))?))?)
        });
        ctx.check(|| key("proto"), || {
            let b = pbd::DType::from(&d).encode_to_vec();
            must(t, &es(DType::try_from(&es(pbd::DType::decode(b.as_slice()))?))?)
        });
        ctx.check(|| key("stream"), || {
            let b = crate::p_wire::write_stream(&[(d.clone(), vec![])])?;
            crate::p_wire::drive(
                async {
                    let mut r = es(vortex_serde::DTypeReader::new(crate::p_wire::at_offset(&b, 0)).await)?;
                    must(t, &es(r.read_dtype().await)?)?;
                    if r.read_dtype().await.is_ok() || !r.into_inner().is_empty() {
                        return Err("something follows the type".into());
                    }
                    Ok(())
                },
                10_000,
            )?
        });
        ctx.check(|| key("json"), || must(t, &es(serde_json::from_str::<DType>(&es(serde_json::to_string(&d))?))?));
        ctx.check(|| key("jsonvalue"), || must(t, &es(serde_json::from_value::<DType>(es(serde_json::to_value(&d))?))?));
        ctx.check(|| key("flexbuffers"), || {
            let mut s = flexbuffers::FlexbufferSerializer::new();
            es(d.serialize(&mut s))?;
            must(t, &es(DType::deserialize(es(flexbuffers::Reader::get_root(s.view()))?))?)
        });
        ctx.check(|| key("nullability"), || {
            for n in [false, true] {
                must(&t.with(n), &d.with_nullability(nn(n)))?;
            }
            must(&t.with(true), &d.as_nullable())?;
            must(&t.with(false), &d.as_nonnullable())?;
            if d.is_nullable() != t.nullable() || bool::from(d.nullability()) != t.nullable() {
                return Err("wrong nullability reported".into());
            }
            let c = d.clone();
            must(t, &c)?;
            if c != d || hash_of(&c) != hash_of(&d) {
                return Err("a clone is not equal".into());
            }
            Ok(())
        });
        ctx.check(|| key("kind"), || {
            let p = if let T::Prim(p, _) = t { Some(*p) } else { None };
            let k = p.map(pno).unwrap_or(99);
            let got = [d.is_unsigned_int(), d.is_signed_int(), d.is_int(), d.is_float(), d.is_boolean(), d.is_struct(), d.as_struct().is_some()];
            let st = matches!(t, T::Struct(..));
            let want = [k < 4, (4..8).contains(&k), k < 8, (8..11).contains(&k), matches!(t, T::Bool(_)), st, st];
            if got != want {
                return Err(format!("classified {got:?} instead of {want:?}"));
            }
            if PType::try_from(&d).ok().map(pno) != p.map(pno) {
                return Err("wrong physical type".into());
            }
            Ok(())
        });
    });
    ctx.bound(format!(
        "{} types: every leaf (11 primitive types, text, binary, extension ids x metadata, null; both nullabilities), lists and structs of 0-2 fields of every leaf, lists/structs of those and 3 fields over representatives, 20-fold nesting, 300 fields; through flatbuffers, protobuf bytes, JSON, flexbuffers, and a message of a stream",
        u.len()
    ));

    // equality: pairs
    let reps: Vec<&T> = {
        let mut r: Vec<&T> = u.iter().take(leaves(true).len() * 2).collect();
        r.extend(u.iter().skip(r.len()).step_by((u.len() / if ctx.thorough { 6000 } else { 1500 }).max(1)));
        r
    };
    let built: Vec<DType> = reps.iter().map(|t| t.build()).collect();
    (0..reps.len()).into_par_iter().for_each(|i| {
        for j in 0..reps.len() {
            let (a, b) = (reps[i], reps[j]);
            ctx.check(
                || format!("equal|{a:?}|{b:?}").chars().take(400).collect(),
                || {
                    let (x, y) = (&built[i], &built[j]);
                    if (x == y) != (a == b) {
                        return Err(format!("== says {}", x == y));
                    }
                    if a == b && hash_of(x) != hash_of(y) {
                        return Err("equal types hash differently".into());
                    }
                    if (x.partial_cmp(y) == Some(std::cmp::Ordering::Equal)) != (a == b) {
                        return Err("the order disagrees with equality".into());
                    }
                    let same = a.with(true) == b.with(true);
                    if x.eq_ignore_nullability(y) != same {
                        return Err(format!("eq_ignore_nullability says {}", !same));
                    }
                    Ok(())
                },
            );
        }
    });
    ctx.bound(format!("equality, hashing, order and equality up to nullability on all pairs of {} types", reps.len()));

    for p in PTYPES {
        ctx.check(
            || format!("ptype|{p}"),
            || {
                let k = pno(p);
                let w = [1usize, 2, 4, 8, 1, 2, 4, 8, 2, 4, 8][k as usize];
                if p.byte_width() != w || p.bit_width() != 8 * w {
                    return Err("wrong width".into());
                }
                if pno(p.to_signed()) != if k < 4 { k + 4 } else { k } || pno(p.to_unsigned()) != if (4..8).contains(&k) { k - 4 } else { k } {
                    return Err("wrong signedness conversion".into());
                }
                if k < 8 && p.max_value() as i128 != imax(p) {
                    return Err("wrong maximum".into());
                }
                let via: PType = pbd::PType::from(p).into();
                let via2 = es(PType::try_from(fbd::PType::from(p)))?;
                if pno(via) != k || pno(via2) != k || pno(es(PType::try_from(&DType::from(p)))?) != k || DType::from(p).is_nullable() {
                    return Err("not recovered".into());
                }
                let r: &DType = p.into();
                if r != &DType::from(p) {
                    return Err("not recovered from a reference".into());
                }
                Ok(())
            },
        );
    }

    // temporal metadata
    for u in [TimeUnit::Ns, TimeUnit::Us, TimeUnit::Ms, TimeUnit::S, TimeUnit::D] {
        let tzs: Vec<Option<String>> =
            vec![None, Some("UTC".into()), Some("é".into()), Some("+00:00".into()), Some("z".repeat(255)), Some("z".repeat(256)), Some("z".repeat(65535))];
        let mut ms: Vec<(TemporalMetadata, ExtID)> =
            vec![(TemporalMetadata::Time(u), TIME_ID.clone()), (TemporalMetadata::Date(u), DATE_ID.clone())];
        ms.extend(tzs.iter().map(|z| (TemporalMetadata::Timestamp(u, z.clone()), TIMESTAMP_ID.clone())));
        for (m, id) in ms {
            ctx.check(
                || format!("temporal|{:?}", m).chars().take(200).collect(),
                || {
                    let e = ExtDType::new(id.clone(), Some(m.clone().into()));
                    let r = es(TemporalMetadata::try_from(&e))?;
                    if r != m || r.time_unit() != u || r.time_zone() != m.time_zone() {
                        return Err(format!("recovered {r:?}"));
                    }
                    // and through a serialized type
                    let d = DType::Extension(e, nn(true));
                    let b = d.with_flatbuffer_bytes(|b| b.to_vec());
                    let DType::Extension(e2, _) = es(DType::try_from(es(flatbuffers::root::<fbd::DType>(&b))?))? else { return Err("not an extension".into()) };
                    if es(TemporalMetadata::try_from(&e2))? != m {
                        return Err("not recovered from bytes".into());
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.bound("all physical types and all temporal metadata (5 units, time zones up to 65535 bytes)");

    projections(ctx);

    // field paths from protobuf
    let parts = [Field::from("a"), Field::from(""), Field::from("é.b"), Field::from(0usize), Field::from(1usize << 40)];
    for k in 0..=3 {
        for fs in seqs(&parts, k) {
            ctx.check(
                || format!("path|{fs:?}"),
                || {
                    let pb = pbd::FieldPath {
                        path: fs
                            .iter()
                            .map(|f| pbd::Field {
                                field_type: Some(match f {
                                    Field::Name(n) => pbd::field::FieldType::Name(n.clone()),
                                    Field::Index(i) => pbd::field::FieldType::Index(*i as _),
                                }),
                            })
                            .collect(),
                    };
                    let pb = es(pbd::FieldPath::decode(pb.encode_to_vec().as_slice()))?;
                    let p = es(FieldPath::try_from(&pb))?;
                    if p.path() != fs.as_slice() {
                        return Err(format!("became {p:?}"));
                    }
                    let j: FieldPath = es(serde_json::from_str(&es(serde_json::to_string(&p))?))?;
                    if j != p {
                        return Err(format!("became {j:?} through JSON"));
                    }
                    Ok(())
                },
            );
        }
    }
    ctx.bound("field paths of up to 3 of 5 fields");
}

fn projections(ctx: &Ctx) {
    let ft = [
        T::Prim(PType::I32, true),
        T::Utf8(false),
        T::Struct(vec![("a".into(), T::Bool(true)), ("q".into(), T::Prim(PType::U8, false))], true),
        T::Bool(false),
    ];
    let schemes: [&[&str]; 5] = [&["a", "b", "c", "d"], &["x", "x", "y", "x"], &["", "é", "a", "0"], &["b", "a", "b", "a"], &["1", "0", "3", "2"]];
    let mut structs = vec![];
    for k in 0..=4usize {
        for s in schemes {
            for n in [false, true] {
                let fs: Vec<(String, T)> = (0..k).map(|i| (s[i].to_string(), ft[i].clone())).collect();
                structs.push(T::Struct(fs, n));
            }
        }
    }
    let mut refs: Vec<Field> = ["a", "b", "x", "y", "", "é", "0", "q", "A"].iter().map(|s| Field::from(*s)).collect();
    refs.extend([0usize, 1, 2, 3, 4, 5, usize::MAX].map(Field::from));
    let maxk = if ctx.thorough { 4 } else { 3 };
    structs.par_iter().for_each(|t| {
        let T::Struct(fs, n) = t else { unreachable!() };
        let d = t.build();
        let st = d.as_struct().unwrap();
        let bytes = d.with_flatbuffer_bytes(|b| b.to_vec());
        let fbt = flatbuffers::root::<fbd::DType>(&bytes).unwrap();
        ctx.state();
        let find = |f: &Field| match f {
            Field::Name(x) => fs.iter().position(|g| &g.0 == x),
            Field::Index(i) => (*i < fs.len()).then_some(*i),
        };
        // arrays of this type in every encoding
        let rows = 3;
        let leaf = |t: &T, r: usize, k: usize| -> V {
            if t.nullable() && (r + k) % 3 == 1 {
                return V::Null;
            }
            match t {
                T::Prim(p, _) => V::of_int(*p, (r * 10 + k) as i128),
                T::Utf8(_) => V::s(&format!("r{r}k{k}")),
                T::Bool(_) => V::B((r + k) % 2 == 0),
                _ => V::Struct(vec![if r == 0 { V::Null } else { V::B(r % 2 == 0) }, V::of_int(PType::U8, (r + k) as i128)]),
            }
        };
        let mut arrays: Vec<(String, Array, Col)> = vec![];
        for (nm, pat) in [("distinct", 0usize), ("equal", 1), ("nulls", 2)] {
            if pat == 2 && !n {
                continue;
            }
            let col = Col::new(
                d.clone(),
                (0..rows)
                    .map(|r| {
                        if pat == 2 && r != 1 || pat == 0 && *n && r == 2 {
                            V::Null
                        } else {
                            V::Struct(fs.iter().enumerate().map(|(k, f)| leaf(&f.1, if pat == 1 { 1 } else { r }, k)).collect())
                        }
                    })
                    .collect(),
            );
            for e in encodings(&col, Rich::Core) {
                if let Ok(a) = e.1 {
                    arrays.push((format!("{nm} {}", e.0), a, col.clone()));
                }
            }
            let es_ = Col::new(d.clone(), vec![]);
            if pat == 0 {
                arrays.push(("empty".into(), plain(&es_), es_));
            }
        }
        for k in 0..=maxk {
            for p in seqs(&refs, k) {
                let want: Option<Vec<usize>> = p.iter().map(find).collect();
                let wt = want.as_ref().map(|w| T::Struct(w.iter().map(|i| fs[*i].clone()).collect(), *n));
                let key = |op: &str| format!("{op}|{t:?}|{p:?}");
                let judge = |r: Result<DType, String>| -> Result<(), String> {
                    match (&wt, r) {
                        (Some(w), Ok(d)) if w.is(&d) => Ok(()),
                        (Some(_), Ok(d)) => Err(format!("projected to {d}")),
                        (Some(_), Err(e)) => Err(format!("refused: {e}")),
                        (None, Ok(d)) => Err(format!("projected to {d} although a field does not exist")),
                        (None, Err(e)) if e.starts_with("panic") => Err(e),
                        (None, Err(_)) => Ok(()),
                    }
                };
                ctx.check(|| key("project"), || judge(attempt(|| es(st.project(&p)).map(|s| DType::Struct(s, nn(*n))))));
                ctx.check(
                    || key("schema"),
                    || judge(attempt(|| es(Schema::new(d.clone()).project(Projection::Flat(p.clone()))).map(|s| s.dtype().clone()))),
                );
                ctx.check(|| key("deserialize"), || judge(attempt(|| es(fbd::deserialize_and_project(fbt, &p)))));
                if k <= 2 {
                    for (nm, a, col) in &arrays {
                        ctx.check(
                            || format!("array|{nm}|{t:?}|{p:?}"),
                            || {
                                let r = attempt(|| es(a.with_dyn(|x| x.as_struct_array_unchecked().project(&p))));
                                match (&want, r) {
                                    (None, Ok(_)) => Err("projected although a field does not exist".into()),
                                    (None, Err(e)) if e.starts_with("panic") => Err(e),
                                    (None, Err(_)) => Ok(()),
                                    (Some(_), Err(e)) => Err(format!("refused: {e}")),
                                    (Some(w), Ok(r)) => {
                                        if !wt.as_ref().unwrap().is(r.dtype()) {
                                            return Err(format!("projected to {}", r.dtype()));
                                        }
                                        let wc = Col::new(
                                            r.dtype().clone(),
                                            col.vals
                                                .iter()
                                                .map(|v| match v {
                                                    V::Struct(x) => V::Struct(w.iter().map(|i| x[*i].clone()).collect()),
                                                    v => v.clone(),
                                                })
                                                .collect(),
                                        );
                                        if r.len() != col.len() {
                                            return Err(format!("{} rows instead of {}", r.len(), col.len()));
                                        }
                                        same(&r, &wc)
                                    }
                                }
                            },
                        );
                    }
                }
            }
        }
        for f in &refs {
            let want = find(f);
            ctx.check(
                || format!("field|{t:?}|{f:?}"),
                || {
                    let res = attempt(|| es(Schema::new(d.clone()).field_type(f)));
                    match (want, res) {
                        (Some(i), Ok(d)) if fs[i].1.is(&d) => {}
                        (None, Err(e)) if !e.starts_with("panic") => {}
                        (_, r) => return Err(format!("field_type gave {r:?}")),
                    }
                    match (want, attempt(|| es(st.field_info(f).map(|i| (i.index, i.name.to_string(), i.dtype.clone()))))) {
                        (Some(i), Ok((j, nm, d))) if i == j && nm == fs[i].0 && fs[i].1.is(&d) => {}
                        (None, Err(e)) if !e.starts_with("panic") => {}
                        (_, r) => return Err(format!("field_info gave {r:?}")),
                    }
                    match (want, attempt(|| es(fbd::resolve_field(fbt.type__as_struct_().unwrap(), f)))) {
                        (Some(i), Ok(j)) if i == j => {}
                        (None, Err(e)) if !e.starts_with("panic") => {}
                        (_, r) => return Err(format!("resolve_field gave {r:?}")),
                    }
                    if let Field::Name(x) = f {
                        if st.find_name(x) != want {
                            return Err("find_name".into());
                        }
                    }
                    for (nm, a, col) in &arrays {
                        let got = attempt(|| {
                            Ok(a.with_dyn(|x| {
                                let s = x.as_struct_array_unchecked();
                                match f {
                                    Field::Name(x) => s.field_by_name(x),
                                    Field::Index(i) => s.field(*i),
                                }
                            }))
                        })?;
                        match (want, got) {
                            (None, None) => {}
                            (Some(i), Some(c)) => {
                                if !fs[i].1.is(c.dtype()) && !fs[i].1.with(true).is(c.dtype()) || c.len() != col.len() {
                                    return Err(format!("{nm}: field has type {} and {} rows", c.dtype(), c.len()));
                                }
                                let o = observe(&c)?;
                                for (r, v) in col.vals.iter().enumerate() {
                                    if let V::Struct(x) = v {
                                        if !same_ext(&o.vals[r], &x[i]) {
                                            return Err(format!("{nm}: row {r} of the field is {:?} instead of {:?}", o.vals[r], x[i]));
                                        }
                                    }
                                }
                            }
                            (_, g) => return Err(format!("{nm}: field gave {:?}", g.map(|a| a.dtype().to_string()))),
                        }
                    }
                    Ok(())
                },
            );
        }
        ctx.check(
            || format!("schema all|{t:?}"),
            || must(t, es(Schema::new(d.clone()).project(Projection::All))?.dtype()),
        );
    });
    // not structs
    for t in rep_leaves().into_iter().chain(lists_of(&rep_leaves()[..2])) {
        let d = t.build();
        ctx.check(
            || format!("nonstruct|{t:?}"),
            || {
                let bytes = d.with_flatbuffer_bytes(|b| b.to_vec());
                let fbt = es(flatbuffers::root::<fbd::DType>(&bytes))?;
                for p in [vec![], vec![Field::from(0usize)], vec![Field::from("a")]] {
                    if fbd::deserialize_and_project(fbt, &p).is_ok() || Schema::new(d.clone()).project(Projection::Flat(p)).is_ok() {
                        return Err("projected".into());
                    }
                }
                if Schema::new(d.clone()).field_type(&Field::from(0usize)).is_ok() {
                    return Err("has a field".into());
                }
                Ok(())
            },
        );
    }
    ctx.bound(format!(
        "{} struct types of 0-4 fields with plain, repeated and odd names, every list of up to {maxk} of {} field references (names, indices, missing ones, usize::MAX), on types, schemas, serialized types, and arrays in every encoding",
        structs.len(),
        refs.len()
    ));
}

// ---------------------------------------------------------------- C25

/// Scalars with their types; compared bit for bit, not with the library's equality.
fn sv_same(a: &ScalarValue, b: &ScalarValue) -> bool {
    match (a, b) {
        (ScalarValue::Null, ScalarValue::Null) => true,
        (ScalarValue::Bool(x), ScalarValue::Bool(y)) => x == y,
        // the payload of a NaN is not part of its value
        (ScalarValue::Primitive(x), ScalarValue::Primitive(y)) => pv_bits(x) == pv_bits(y) || x.ptype() == y.ptype() && v_of(x).is_nan() && v_of(y).is_nan(),
        (ScalarValue::Buffer(x), ScalarValue::Buffer(y)) => x.as_slice() == y.as_slice(),
        (ScalarValue::BufferString(x), ScalarValue::BufferString(y)) => x.as_str() == y.as_str(),
        (ScalarValue::List(x), ScalarValue::List(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| sv_same(p, q)),
        _ => false,
    }
}
fn pv_bits(p: &PValue) -> (u8, u64) {
    match p {
        PValue::U8(v) => (0, *v as u64),
        PValue::U16(v) => (1, *v as u64),
        PValue::U32(v) => (2, *v as u64),
        PValue::U64(v) => (3, *v),
        PValue::I8(v) => (4, *v as u8 as u64),
        PValue::I16(v) => (5, *v as u16 as u64),
        PValue::I32(v) => (6, *v as u32 as u64),
        PValue::I64(v) => (7, *v as u64),
        PValue::F16(v) => (8, v.to_bits() as u64),
        PValue::F32(v) => (9, v.to_bits() as u64),
        PValue::F64(v) => (10, v.to_bits()),
    }
}
fn pv_of(p: PType, bits: u64) -> PValue {
    match p {
        PType::U8 => PValue::U8(bits as u8),
        PType::U16 => PValue::U16(bits as u16),
        PType::U32 => PValue::U32(bits as u32),
        PType::U64 => PValue::U64(bits),
        PType::I8 => PValue::I8(bits as i8),
        PType::I16 => PValue::I16(bits as i16),
        PType::I32 => PValue::I32(bits as i32),
        PType::I64 => PValue::I64(bits as i64),
        PType::F16 => PValue::F16(f16::from_bits(bits as u16)),
        PType::F32 => PValue::F32(f32::from_bits(bits as u32)),
        PType::F64 => PValue::F64(f64::from_bits(bits)),
    }
}
fn sv_of(p: PType, bits: u64) -> ScalarValue {
    ScalarValue::Primitive(pv_of(p, bits))
}
fn v_of(p: &PValue) -> V {
    let (k, b) = pv_bits(p);
    V::P(PTYPES[k as usize], b)
}

fn int_vals(p: PType) -> Vec<i128> {
    let mut v: Vec<i128> = vec![0, 1, -1, 2, 100];
    for k in [7u32, 8, 11, 15, 16, 24, 31, 32, 53, 63] {
        for d in [-1i128, 0, 1] {
            v.push((1i128 << k) + d);
            v.push(-(1i128 << k) + d);
        }
    }
    v.extend([65504, 65519, 65520, 70000, imin(p), imax(p), imin(p) + 1, imax(p) - 1]);
    v.retain(|x| *x >= imin(p) && *x <= imax(p));
    v.sort();
    v.dedup();
    v
}
fn float_vals(p: PType) -> Vec<u64> {
    let fs: Vec<f64> = vec![
        0.0, 1.0, 0.5, 1.5, 2.0, 0.1, 100.0, 127.0, 127.5, 128.0, 255.0, 255.9, 256.0, 32767.0, 32768.0, 65504.0, 65519.0, 65535.0, 65536.0,
        2147483647.0, 2147483648.0, 4294967295.0, 4294967296.0, 9007199254740992.0, 9223372036854775807.0, 18446744073709551615.0, 1e30, 1e300,
        1e-7, 1e-40, 5e-324, 16777217.0, f64::MAX, f64::INFINITY, f64::MIN_POSITIVE, 9223372036854774784.0, 128.9, 0.9, 2049.0,
    ];
    let mut v = vec![];
    for f in fs {
        for s in [f, -f] {
            v.push(match p {
                PType::F16 => f16::from_f64(s).to_bits() as u64,
                PType::F32 => (s as f32).to_bits() as u64,
                _ => s.to_bits(),
            });
        }
    }
    v.extend(match p {
        PType::F16 => vec![0x7e00, 0xfe00, 0x7c01, 0x0001, 0x8001],
        PType::F32 => vec![0x7fc00000, 0xffc00000, 0x7f800001, 1, 0x80000001],
        _ => vec![0x7ff8000000000000, 0xfff8000000000000, 0x7ff0000000000001, 1, 1 << 63 | 1],
    });
    v.sort();
    v.dedup();
    v
}
fn prim_vals(p: PType) -> Vec<u64> {
    if p.is_float() {
        float_vals(p)
    } else {
        int_vals(p).into_iter().map(|x| pv_bits_of_int(p, x)).collect()
    }
}
fn pv_bits_of_int(p: PType, x: i128) -> u64 {
    match V::of_int(p, x) {
        V::P(_, b) => b,
        _ => 0,
    }
}
fn str_vals() -> Vec<&'static str> {
    vec!["", "a", "a\u{0}", "b", "aa", "\u{e9}", "\u{1f600}", "abcdefghijkl", "abcdefghijklm", "abcd\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}"]
}
fn bin_vals() -> Vec<Vec<u8>> {
    vec![vec![], vec![0], vec![255], vec![255, 0], vec![0, 255, 128], (0..=255).collect(), vec![7; 300]]
}
fn utf8(s: &str) -> ScalarValue {
    ScalarValue::BufferString(BufferString::from(s.to_string()))
}
fn bin(b: &[u8]) -> ScalarValue {
    ScalarValue::Buffer(Buffer::from(b))
}
fn temporal_types() -> Vec<(T, PType)> {
    let mut v = vec![];
    for (m, id, p) in [
        (TemporalMetadata::Date(TimeUnit::D), &*DATE_ID, PType::I32),
        (TemporalMetadata::Date(TimeUnit::Ms), &*DATE_ID, PType::I64),
        (TemporalMetadata::Time(TimeUnit::S), &*TIME_ID, PType::I32),
        (TemporalMetadata::Time(TimeUnit::Ns), &*TIME_ID, PType::I64),
        (TemporalMetadata::Timestamp(TimeUnit::Us, None), &*TIMESTAMP_ID, PType::I64),
        (TemporalMetadata::Timestamp(TimeUnit::Ms, Some("UTC".into())), &*TIMESTAMP_ID, PType::I64),
        (TemporalMetadata::Timestamp(TimeUnit::S, Some("America/New_York".into())), &*TIMESTAMP_ID, PType::I64),
    ] {
        let m: ExtMetadata = m.into();
        v.push((T::Ext(id.as_ref().into(), Some(m.as_ref().to_vec()), true), p));
    }
    v
}

/// (type, values). The type is nullable, and null is among the values.
fn scalar_groups(thorough: bool) -> Vec<(T, Vec<ScalarValue>)> {
    let mut v: Vec<(T, Vec<ScalarValue>)> = vec![(T::Null, vec![])];
    v.push((T::Bool(true), vec![false.into(), true.into()]));
    for p in PTYPES {
        v.push((T::Prim(p, true), prim_vals(p).into_iter().map(|b| sv_of(p, b)).collect()));
    }
    v.push((T::Utf8(true), str_vals().into_iter().map(utf8).chain([utf8(&"x".repeat(300))]).collect()));
    v.push((T::Bin(true), bin_vals().iter().map(|b| bin(b)).collect()));
    for (t, p) in temporal_types() {
        v.push((t, int_vals(p).into_iter().step_by(3).map(|x| sv_of(p, pv_bits_of_int(p, x))).collect()));
    }
    // extensions over anything
    let ext = |m: Option<Vec<u8>>| T::Ext("my.ext".into(), m, true);
    for p in PTYPES {
        v.push((ext(Some(vec![pno(p)])), prim_vals(p).into_iter().step_by(5).map(|b| sv_of(p, b)).collect()));
    }
    v.push((ext(None), vec![utf8("a"), utf8("")]));
    v.push((ext(Some(vec![])), vec![bin(&[1, 255])]));
    v.push((ext(Some(vec![99])), vec![true.into(), false.into()]));
    for g in v.iter_mut() {
        g.1.push(ScalarValue::Null);
    }
    let flat = v.clone();
    // a few values of each leaf type
    let few = |g: &(T, Vec<ScalarValue>), k: usize| -> Vec<ScalarValue> {
        let n = g.1.len();
        let mut r: Vec<ScalarValue> = (0..k.min(n)).map(|i| g.1[i * n / k.min(n)].clone()).collect();
        if !r.iter().any(|x| x.is_null()) {
            r.push(ScalarValue::Null);
        }
        r
    };
    let mk = |l: Vec<ScalarValue>| ScalarValue::List(l.into());
    for g in &flat {
        for en in [true, false] {
            if !en && g.0 == T::Null {
                continue;
            }
            let mut al = few(g, 3);
            if !en {
                al.retain(|x| !x.is_null());
            }
            let mut vals = vec![];
            for k in 0..=if thorough { 3 } else { 2 } {
                vals.extend(seqs(&al, k).into_iter().map(mk));
            }
            vals.push(ScalarValue::Null);
            v.push((T::List(Box::new(g.0.with(en)), true), vals));
        }
    }
    let pick: Vec<usize> = if thorough { (0..flat.len()).collect() } else { vec![0, 1, 2, 5, 6, 9, 10, 12, 13, 14, 15, 19, 21, 22] };
    v.push((T::Struct(vec![], true), vec![mk(vec![]), ScalarValue::Null]));
    for &i in &pick {
        for &j in &pick {
            let (a, b) = (few(&flat[i], 2), few(&flat[j], 2));
            let t = T::Struct(vec![("a".into(), flat[i].0.clone()), (if (i + j) % 3 == 0 { "a" } else { "b" }.into(), flat[j].0.clone())], true);
            let mut vals: Vec<ScalarValue> = a.iter().flat_map(|x| b.iter().map(|y| mk(vec![x.clone(), y.clone()])).collect::<Vec<_>>()).collect();
            vals.push(ScalarValue::Null);
            v.push((t, vals));
        }
    }
    // lists of structs, structs of lists, lists of lists
    let base = v.len();
    for i in (flat.len()..base).step_by(if thorough { 3 } else { 7 }) {
        let g = v[i].clone();
        let al = few(&g, 3);
        let mut vals: Vec<ScalarValue> = vec![mk(vec![])];
        vals.extend(al.iter().map(|x| mk(vec![x.clone()])));
        vals.extend(seqs(&al, 2).into_iter().map(mk));
        vals.push(ScalarValue::Null);
        v.push((T::List(Box::new(g.0.clone()), true), vals));
        let mut vals: Vec<ScalarValue> = al.iter().map(|x| mk(vec![x.clone()])).collect();
        vals.push(ScalarValue::Null);
        v.push((T::Struct(vec![("s".into(), g.0.clone())], true), vals));
    }
    v
}

fn has(sv: &ScalarValue, f: &dyn Fn(&ScalarValue) -> bool) -> bool {
    f(sv) || matches!(sv, ScalarValue::List(l) if l.iter().any(|x| has(x, f)))
}

/// The order the values have: null last, numbers by value, text and bytes by content, lists and structs
/// from left to right. None: NaN, or zeros of different sign.
fn sv_order(a: &ScalarValue, b: &ScalarValue) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    use ScalarValue as S;
    match (a, b) {
        (S::Null, S::Null) => Some(Equal),
        (S::Null, _) => Some(Greater),
        (_, S::Null) => Some(Less),
        (S::Bool(x), S::Bool(y)) => Some(x.cmp(y)),
        (S::Primitive(x), S::Primitive(y)) => {
            let (x, y) = (v_of(x), v_of(y));
            if x == y && !x.is_nan() {
                return Some(Equal);
            }
            vcmp(&x, &y).filter(|o| *o != Equal)
        }
        (S::Buffer(x), S::Buffer(y)) => Some(x.as_slice().cmp(y.as_slice())),
        (S::BufferString(x), S::BufferString(y)) => Some(x.as_str().as_bytes().cmp(y.as_str().as_bytes())),
        (S::List(x), S::List(y)) => {
            for (p, q) in x.iter().zip(y.iter()) {
                match sv_order(p, q)? {
                    Equal => {}
                    o => return Some(o),
                }
            }
            Some(x.len().cmp(&y.len()))
        }
        _ => None,
    }
}

/// What casting a number gives: the bits allowed, or an error.
fn cast_num(v: &V, to: PType) -> (Vec<u64>, bool) {
    if to.is_float() {
        let x = match (v.int(), v.float()) {
            (Some(i), _) => Ok(i),
            (_, f) => Err(f.unwrap()),
        };
        let b = match to {
            PType::F64 => vec![match x {
                Ok(i) => i as f64,
                Err(f) => f,
            }
            .to_bits()],
            PType::F32 => vec![match x {
                Ok(i) => i as f32,
                Err(f) => f as f32,
            }
            .to_bits() as u64],
            _ => match x {
                Ok(i) => vec![f16::from_f64(i as f64).to_bits() as u64, f16::from_f32(i as f32).to_bits() as u64],
                Err(f) => vec![f16::from_f64(f).to_bits() as u64, f16::from_f32(f as f32).to_bits() as u64],
            },
        };
        // a finite number may also be refused when it is beyond the target's range
        let inf = V::P(to, b[0]).float().unwrap().is_infinite() && v.float().is_none_or_finite();
        return (b, inf);
    }
    let i = match (v.int(), v.float()) {
        (Some(i), _) => i,
        (_, Some(f)) if f.is_finite() && f.abs() < 1e30 => f.trunc() as i128,
        _ => return (vec![], true),
    };
    if i < imin(to) || i > imax(to) {
        (vec![], true)
    } else {
        (vec![pv_bits_of_int(to, i)], false)
    }
}
trait NoneOrFinite {
    fn is_none_or_finite(&self) -> bool;
}
impl NoneOrFinite for Option<f64> {
    fn is_none_or_finite(&self) -> bool {
        self.map_or(true, |f| f.is_finite())
    }
}

/// Whether `r` is what casting `sv` from `f` to `t` must give.
fn cast_ok(f: &T, sv: &ScalarValue, t: &T, r: Result<&ScalarValue, &String>) -> Result<(), String> {
    let refused_ok = |m: &String| if m.starts_with("panic") { Err(m.clone()) } else { Ok(()) };
    if sv.is_null() {
        return match r {
            Ok(v) if t.nullable() && v.is_null() => Ok(()),
            Ok(v) => Err(format!("null became {v:?}")),
            // a null of another kind of type may be refused
            Err(m) if !t.nullable() || kind(f) != kind(t) || kind(f) == 7 && f.with(true) != t.with(true) => refused_ok(m),
            Err(m) => Err(format!("null was refused: {m}")),
        };
    }
    match (f, sv, t) {
        (T::Prim(..), ScalarValue::Primitive(p), T::Prim(q, _)) => {
            let (bits, may_fail) = if p.ptype() == *q { (vec![pv_bits(p).1], false) } else { cast_num(&v_of(p), *q) };
            match r {
                Ok(ScalarValue::Primitive(x)) if x.ptype() == *q && (bits.contains(&pv_bits(x).1) || v_of(p).is_nan() && v_of(x).is_nan()) => Ok(()),
                Ok(x) => Err(format!("became {x:?}")),
                Err(m) if may_fail => refused_ok(m),
                Err(m) => Err(format!("was refused: {m}")),
            }
        }
        (T::List(a, _), ScalarValue::List(l), T::List(b, _)) => cast_all(r, l, &l.iter().map(|_| (&**a, &**b)).collect::<Vec<_>>()),
        (T::Struct(a, _), ScalarValue::List(l), T::Struct(b, _)) if a.len() == b.len() => {
            cast_all(r, l, &a.iter().zip(b).map(|(x, y)| (&x.1, &y.1)).collect::<Vec<_>>())
        }
        _ if f.with(true) == t.with(true) => match r {
            Ok(x) if sv_same(x, sv) => Ok(()),
            Ok(x) => Err(format!("became {x:?}")),
            Err(m) => Err(format!("was refused: {m}")),
        },
        _ => match r {
            Err(m) => refused_ok(m),
            Ok(x) => Err(format!("became {x:?}")),
        },
    }
}
fn cast_all(r: Result<&ScalarValue, &String>, l: &[ScalarValue], ts: &[(&T, &T)]) -> Result<(), String> {
    let none = String::from("refused");
    match r {
        Ok(ScalarValue::List(x)) if x.len() == l.len() => {
            for ((s, (a, b)), y) in l.iter().zip(ts).zip(x.iter()) {
                cast_ok(a, s, b, Ok(y))?;
            }
            Ok(())
        }
        Ok(x) => Err(format!("became {x:?}")),
        Err(m) if m.starts_with("panic") => Err(m.clone()),
        Err(m) => {
            // some element must be allowed to be refused
            if l.iter().zip(ts).any(|(s, (a, b))| cast_ok(a, s, b, Err(&none)).is_ok()) {
                Ok(())
            } else {
                Err(format!("was refused: {m}"))
            }
        }
    }
}
fn has_ext(t: &T) -> bool {
    match t {
        T::Ext(..) => true,
        T::List(e, _) => has_ext(e),
        T::Struct(f, _) => f.iter().any(|x| has_ext(&x.1)),
        _ => false,
    }
}
fn kind(t: &T) -> u8 {
    match t {
        T::Null => 0,
        T::Bool(_) => 1,
        T::Prim(..) => 2,
        T::Utf8(_) => 3,
        T::Bin(_) => 4,
        T::Struct(f, _) => 10 + f.len() as u8,
        T::List(..) => 6,
        T::Ext(..) => 7,
    }
}

pub fn c25(ctx: &Ctx) {
    let groups = scalar_groups(true);
    let desc = |t: &T, v: &ScalarValue| format!("{t:?}|{v:?}").chars().take(300).collect::<String>();
    let count: usize = groups.iter().map(|g| g.1.len()).sum();
    groups.par_iter().for_each(|(t, vals)| {
        for sv in vals {
            ctx.state();
            for n in [true, false] {
                if !n && (sv.is_null() || *t == T::Null) {
                    continue;
                }
                let t = t.with(n);
                let s = Scalar::new(t.build(), sv.clone());
                let judge = |r: Scalar| -> Result<(), String> {
                    must(&t, r.dtype())?;
                    if !sv_same(r.value(), sv) {
                        return Err(format!("recovered {:?}", r.value()).chars().take(200).collect());
                    }
                    Ok(())
                };
                let key = |op: &str| format!("{op}|{}", desc(&t, sv));
                ctx.sample(|| key("scalar"));
                ctx.check(|| key("proto"), || {
                    let b = vortex_proto::scalar::Scalar::from(&s).encode_to_vec();
                    judge(es(Scalar::try_from(&es(vortex_proto::scalar::Scalar::decode(b.as_slice()))?))?)
                });
                ctx.check(|| key("flatbuffers"), || {
                    let mut fbb = FlatBufferBuilder::new();
                    let r = s.write_flatbuffer(&mut fbb);
                    fbb.finish_minimal(r);
                    judge(es(Scalar::try_from(es(flatbuffers::root::<vortex_flatbuffers::scalar::Scalar>(fbb.finished_data()))?))?)
                });
                ctx.check(|| key("flatbuffers value"), || {
                    let mut fbb = FlatBufferBuilder::new();
                    let r = sv.write_flatbuffer(&mut fbb);
                    fbb.finish_minimal(r);
                    let v = es(ScalarValue::try_from(es(flatbuffers::root::<vortex_flatbuffers::scalar::ScalarValue>(fbb.finished_data()))?))?;
                    judge(Scalar::new(t.build(), v))
                });
                ctx.check(|| key("flexbuffers"), || {
                    let mut f = flexbuffers::FlexbufferSerializer::new();
                    es(s.serialize(&mut f))?;
                    judge(es(Scalar::deserialize(es(flexbuffers::Reader::get_root(f.view()))?))?)
                });
                // JSON has no bytes, NaN or infinities, and its numbers are decimal
                if !has(sv, &|x| matches!(x, ScalarValue::Buffer(_)) || matches!(x, ScalarValue::Primitive(p) if p.ptype().is_float())) {
                    ctx.check(|| key("json"), || judge(es(serde_json::from_str(&es(serde_json::to_string(&s))?))?));
                }
                ctx.check(|| key("parts"), || {
                    if s.is_null() != sv.is_null() || s.is_valid() == sv.is_null() {
                        return Err("wrong validity".into());
                    }
                    judge(s.clone())?;
                    let (v, d) = s.clone().into_parts();
                    judge(Scalar::new(d, v))?;
                    if !has_ext(&t) && !sv.is_instance_of(&t.build()) {
                        return Err("not an instance of its type".into());
                    }
                    if s != s.clone() {
                        return Err("not equal to itself".into());
                    }
                    read_parts(&s, &t, sv)
                });
            }
        }
        // equality and order
        let d = t.build();
        let sc: Vec<Scalar> = vals.iter().map(|v| Scalar::new(d.clone(), v.clone())).collect();
        for i in 0..sc.len() {
            for j in 0..sc.len() {
                ctx.check(
                    || format!("order|{t:?}|{:?}|{:?}", vals[i], vals[j]).chars().take(400).collect(),
                    || {
                        let c = sc[i].partial_cmp(&sc[j]);
                        let e = sc[i] == sc[j];
                        if e != (c == Some(std::cmp::Ordering::Equal)) {
                            return Err(format!("== says {e}, the order {c:?}"));
                        }
                        if sc[j].partial_cmp(&sc[i]) != c.map(|o| o.reverse()) || (sc[j] == sc[i]) != e {
                            return Err("not symmetric".into());
                        }
                        if let Some(w) = sv_order(&vals[i], &vals[j]) {
                            if c != Some(w) {
                                return Err(format!("ordered {c:?} instead of {w:?}"));
                            }
                        } else if c.is_none() {
                            return Err("no order".into());
                        }
                        if (sc[i] < sc[j], sc[i] <= sc[j], sc[i] > sc[j], sc[i] >= sc[j])
                            != (c.is_some_and(|o| o.is_lt()), c.is_some_and(|o| o.is_le()), c.is_some_and(|o| o.is_gt()), c.is_some_and(|o| o.is_ge()))
                        {
                            return Err("operators disagree".into());
                        }
                        Ok(())
                    },
                );
            }
        }
        // transitivity, including signed zeros and NaN
        let step = (sc.len() / 40).max(1);
        let m: Vec<&Scalar> = sc.iter().step_by(step).collect();
        ctx.check(
            || format!("transitive|{t:?}"),
            || {
                for a in &m {
                    for b in &m {
                        if !(a <= b) {
                            continue;
                        }
                        for c in &m {
                            if b <= c && !(a <= c) {
                                return Err(format!("{:?} <= {:?} <= {:?} but not in one step", a.value(), b.value(), c.value()));
                            }
                        }
                    }
                }
                Ok(())
            },
        );
        ctx.steps((m.len() * m.len() * m.len()) as u64);
    });
    ctx.bound(format!("{count} values of {} types (extremes of all primitive types, NaNs, signed zeros, text, bytes, temporal and other extensions, lists and structs of up to 2-3 of them, nested lists and structs) in both nullabilities: through protobuf, flatbuffers, flexbuffers, JSON; order and equality on all pairs of each type, transitivity on triples", groups.len()));

    // casts: every value of every flat type to every primitive type, and lists/structs to their variants
    let flat: Vec<(T, Vec<ScalarValue>)> = groups.iter().filter(|g| !matches!(g.0, T::List(..) | T::Struct(..))).cloned().collect();
    let mut targets: Vec<T> = vec![T::Null];
    for n in [false, true] {
        targets.extend([T::Bool(n), T::Utf8(n), T::Bin(n), T::Struct(vec![], n), T::List(Box::new(T::Prim(PType::I32, n)), n), T::Ext("my.ext".into(), None, n), T::Ext("my.ext".into(), Some(vec![3]), n)]);
        targets.extend(PTYPES.map(|p| T::Prim(p, n)));
        targets.extend(temporal_types().into_iter().map(|x| x.0.with(n)));
    }
    let casts = |t: &T, sv: &ScalarValue, to: &T| {
        for n in [true, false] {
            if !n && (sv.is_null() || *t == T::Null) {
                continue;
            }
            let s = Scalar::new(t.with(n).build(), sv.clone());
            ctx.check(
                || format!("cast|{:?}|{sv:?}|{to:?}", t.with(n)).chars().take(400).collect(),
                || {
                    let r = attempt(|| es(s.cast(&to.build())));
                    if let Ok(r) = &r {
                        must(to, r.dtype())?;
                    }
                    cast_ok(&t.with(n), sv, to, r.as_ref().map(|r| r.value()))
                },
            );
            if matches!(t, T::Utf8(_) | T::Bin(_)) {
                ctx.check(
                    || format!("view-cast|{:?}|{sv:?}|{to:?}", t.with(n)).chars().take(400).collect(),
                    || {
                        let d = to.build();
                        let r = attempt(|| if matches!(t, T::Utf8(_)) { es(es(vortex_scalar::Utf8Scalar::try_from(&s))?.cast(&d)) } else { es(es(vortex_scalar::BinaryScalar::try_from(&s))?.cast(&d)) });
                        if let Ok(r) = &r {
                            must(to, r.dtype())?;
                        }
                        match (&r, attempt(|| es(s.cast(&d)))) {
                            (Ok(x), Ok(y)) if *x == y => Ok(()),
                            (Err(e), Err(_)) if !e.starts_with("panic") => Ok(()),
                            // a view may refuse what has to be parsed
                            (Err(e), Ok(_)) if !e.starts_with("panic") && !matches!((t, to), (T::Utf8(_), T::Utf8(_)) | (T::Bin(_), T::Bin(_))) => Ok(()),
                            (x, y) => Err(format!("{x:?} through the view, {y:?} otherwise")),
                        }
                    },
                );
            }
        }
    };
    flat.par_iter().for_each(|(t, vals)| {
        for sv in vals {
            for to in &targets {
                casts(t, sv, to);
            }
        }
    });
    // nested: element types replaced one by one
    let nested: Vec<&(T, Vec<ScalarValue>)> = groups.iter().filter(|g| matches!(g.0, T::List(..) | T::Struct(..))).collect();
    let subst: Vec<T> = targets.iter().filter(|t| matches!(t, T::Prim(PType::I8 | PType::U8 | PType::I64 | PType::F32, _) | T::Utf8(_) | T::Bool(_) | T::Null)).cloned().collect();
    nested.par_iter().for_each(|(t, vals)| {
        let mut tos = vec![t.with(false), t.clone()];
        for e in &subst {
            match t {
                T::List(x, _) => {
                    tos.push(T::List(Box::new(e.clone()), true));
                    tos.push(T::List(Box::new(x.with(!x.nullable())), true));
                }
                T::Struct(fs, _) => {
                    for i in 0..fs.len() {
                        let mut f = fs.clone();
                        f[i].1 = e.clone();
                        tos.push(T::Struct(f, false));
                    }
                    let mut f = fs.clone();
                    f.push(("z".into(), e.clone()));
                    tos.push(T::Struct(f, true));
                }
                _ => {}
            }
        }
        tos.dedup();
        for sv in vals {
            for to in &tos {
                casts(t, sv, to);
            }
        }
    });
    ctx.bound(format!("casts of every flat value to {} types, of every nested value to its type with one part replaced", targets.len()));

    // protobuf messages whose value isn't stored the way the type is: the number stays, or the message is refused
    for p in PTYPES {
        use vortex_proto::scalar::scalar_value::Kind;
        let mut ns: Vec<i128> = vec![0, 1, -1, 7];
        for q in PTYPES {
            if q.is_int() {
                ns.extend([imin(q) - 1, imin(q), imax(q), imax(q) + 1]);
            }
        }
        ns.sort();
        ns.dedup();
        for n in [false, true] {
            for &x in &ns {
                let mut kinds = vec![];
                kinds.extend(i32::try_from(x).ok().map(Kind::Int32Value));
                kinds.extend(i64::try_from(x).ok().map(Kind::Int64Value));
                kinds.extend(u32::try_from(x).ok().map(Kind::Uint32Value));
                kinds.extend(u64::try_from(x).ok().map(Kind::Uint64Value));
                for k in kinds {
                    ctx.check(
                        || format!("message|{p}|{n}|{k:?}"),
                        || {
                            let mut m = vortex_proto::scalar::Scalar::from(&Scalar::new(prim(p, n), ScalarValue::Primitive(pv_of(p, 0))));
                            m.value = Some(vortex_proto::scalar::ScalarValue { kind: Some(k.clone()) });
                            match attempt(|| es(Scalar::try_from(&m))) {
                                Err(m) if m.starts_with("panic") => Err(m),
                                Err(_) => Ok(()),
                                Ok(s) => {
                                    must(&T::Prim(p, n), s.dtype())?;
                                    let ScalarValue::Primitive(pv) = s.value() else { return Err(format!("became {:?}", s.value())) };
                                    let same = match v_of(pv).int() {
                                        Some(i) => i == x,
                                        // 16 bit floats are stored as their bits
                                        None => p == PType::F16 && matches!(pv, vortex_scalar::PValue::F16(f) if f.to_bits() as i128 == x),
                                    };
                                    if same {
                                        Ok(())
                                    } else {
                                        Err(format!("became {pv:?}"))
                                    }
                                }
                            }
                        },
                    );
                }
            }
        }
    }
    ctx.bound("protobuf messages of every primitive type holding every integer at the limits of any integer type, in every integer field: kept or refused");

    // numbers read as native values, and stored narrower than their type
    for p in PTYPES {
        for b in prim_vals(p) {
            let pv = pv_of(p, b);
            native(ctx, p, &pv);
            for q in PTYPES {
                ctx.check(
                    || format!("stored|{pv:?}|{q}"),
                    || {
                        let d = prim(q, true);
                        let sv = ScalarValue::Primitive(pv);
                        let r = attempt(|| es(PrimitiveScalar::try_new(&d, &sv)));
                        let (want, may_fail) = if p == q { (vec![b], false) } else { cast_num(&v_of(&pv), q) };
                        // integers are read as integers and floats as floats; 16 bits may hold a float
                        let bits = p == PType::U16 && q == PType::F16;
                        let comparable = p.is_float() == q.is_float() || bits;
                        match r {
                            Err(m) if m.starts_with("panic") => Err(m),
                            Err(m) if comparable && !may_fail => Err(m),
                            Err(_) => Ok(()),
                            Ok(_) if !comparable => Err("accepted".into()),
                            Ok(s) => {
                                let s = Scalar::new(d.clone(), sv.clone()).cast(&d).ok().and(Some(s));
                                let got = native_bits(&s.unwrap(), q)?;
                                let ok = if bits { got == b } else { want.contains(&got) || v_of(&pv).is_nan() && V::P(q, got).is_nan() };
                                if ok {
                                    Ok(())
                                } else {
                                    Err(format!("read as {:?}", V::P(q, got)))
                                }
                            }
                        }
                    },
                );
                if p.byte_width() == q.byte_width() {
                    ctx.check(
                        || format!("reinterpret|{pv:?}|{q}"),
                        || {
                            let r = pv.reinterpret_cast(q);
                            if pv_bits(&r) != (pno(q), b) {
                                return Err(format!("became {r:?}"));
                            }
                            for n in [true, false] {
                                let s = Scalar::new(prim(p, n), ScalarValue::Primitive(pv)).reinterpret_cast(q);
                                must(&T::Prim(q, n), s.dtype())?;
                                if !sv_same(s.value(), &ScalarValue::Primitive(r)) {
                                    return Err(format!("became {:?}", s.value()));
                                }
                            }
                            let s = Scalar::null(prim(p, true)).reinterpret_cast(q);
                            must(&T::Prim(q, true), s.dtype())?;
                            if !s.is_null() {
                                return Err("null became a value".into());
                            }
                            Ok(())
                        },
                    );
                }
            }
        }
    }
    ctx.bound("every primitive value read as every native type, stored under every primitive type, and reinterpreted");

    // as Arrow scalars
    flat.par_iter().for_each(|(t, vals)| {
        if matches!(t, T::Ext(id, _, _) if id == "my.ext") {
            return;
        }
        for sv in vals {
            ctx.check(
                || format!("arrow|{}", desc(t, sv)),
                || {
                    let d = t.build();
                    let s = Scalar::new(d.clone(), sv.clone());
                    let x: Arc<dyn arrow_array::Datum> = es(Arc::<dyn arrow_array::Datum>::try_from(&s))?;
                    let (a, _) = x.get();
                    if a.len() != 1 {
                        return Err(format!("has {} values", a.len()));
                    }
                    let at = es(vortex::arrow::infer_data_type(&d))?;
                    if a.data_type() != &at {
                        return Err(format!("has type {} instead of {at}", a.data_type()));
                    }
                    let got = crate::p_arrow::read_arrow(&arrow_array::make_array(a.to_data()))?;
                    let want = from_sv(sv, &d)?;
                    if got.len() != 1 || !same_ext(&got[0], &want) {
                        return Err(format!("became {got:?} instead of {want:?}"));
                    }
                    Ok(())
                },
            );
        }
    });
    ctx.bound("every flat value (except non-temporal extensions) as an Arrow scalar");
}

fn native_bits(s: &PrimitiveScalar, q: PType) -> Result<u64, String> {
    macro_rules! go {
        ($t:ty) => {
            s.typed_value::<$t>().map(|v| pv_bits(&PValue::from(v)).1)
        };
    }
    match q {
        PType::U8 => go!(u8),
        PType::U16 => go!(u16),
        PType::U32 => go!(u32),
        PType::U64 => go!(u64),
        PType::I8 => go!(i8),
        PType::I16 => go!(i16),
        PType::I32 => go!(i32),
        PType::I64 => go!(i64),
        PType::F16 => go!(f16),
        PType::F32 => go!(f32),
        PType::F64 => go!(f64),
    }
    .ok_or("no value".into())
}

/// A number converted to native types: the same value or an error.
fn native(ctx: &Ctx, p: PType, pv: &PValue) {
    macro_rules! go {
        ($t:ty, $q:expr) => {{
            ctx.check(
                || format!("native|{pv:?}|{}", stringify!($t)),
                || {
                    let v = v_of(pv);
                    let (want, may_fail) = if p == $q { (vec![pv_bits(pv).1], false) } else { cast_num(&v, $q) };
                    let bits = p == PType::U16 && $q == PType::F16;
                    let comparable = p.is_float() == $q.is_float() || bits;
                    let judge = |r: Result<u64, String>| match r {
                        Err(m) if m.starts_with("panic") => Err(m),
                        Err(m) if comparable && !may_fail => Err(m),
                        Err(_) => Ok(()),
                        Ok(g) if bits && g == pv_bits(pv).1 => Ok(()),
                        Ok(g) if !bits && comparable && (want.contains(&g) || v.is_nan() && V::P($q, g).is_nan()) => Ok(()),
                        Ok(g) => Err(format!("became {:?}", V::P($q, g))),
                    };
                    judge(attempt(|| es(<$t>::try_from(*pv)).map(|x| pv_bits(&PValue::from(x)).1)))?;
                    judge(attempt(|| es(pv.as_primitive::<$t>()).map(|x| pv_bits(&PValue::from(x)).1)))?;
                    judge(attempt(|| es(<$t>::try_from(&ScalarValue::Primitive(*pv))).map(|x| pv_bits(&PValue::from(x)).1)))?;
                    if p == $q {
                        let s = Scalar::new(prim(p, true), ScalarValue::Primitive(*pv));
                        judge(attempt(|| es(<$t>::try_from(&s)).map(|x| pv_bits(&PValue::from(x)).1)))?;
                        let x = es(<$t>::try_from(*pv))?;
                        let r = Scalar::from(x);
                        must(&T::Prim(p, false), r.dtype())?;
                        if !sv_same(r.value(), s.value()) {
                            return Err(format!("became {:?}", r.value()));
                        }
                        let r = Scalar::from(Some(x));
                        must(&T::Prim(p, true), r.dtype())?;
                        if !sv_same(r.value(), s.value()) || !Scalar::from(None::<$t>).is_null() {
                            return Err(format!("became {:?}", r.value()));
                        }
                        let r = Scalar::primitive(x, nn(true));
                        must(&T::Prim(p, true), r.dtype())?;
                        if !sv_same(r.value(), s.value()) {
                            return Err(format!("became {:?}", r.value()));
                        }
                        if <$t as NativePType>::PTYPE != p {
                            return Err("wrong physical type".into());
                        }
                    }
                    Ok(())
                },
            );
        }};
    }
    go!(u8, PType::U8);
    go!(u16, PType::U16);
    go!(u32, PType::U32);
    go!(u64, PType::U64);
    go!(i8, PType::I8);
    go!(i16, PType::I16);
    go!(i32, PType::I32);
    go!(i64, PType::I64);
    go!(f16, PType::F16);
    go!(f32, PType::F32);
    go!(f64, PType::F64);
    ctx.check(
        || format!("native|{pv:?}|usize"),
        || {
            let s = Scalar::new(prim(p, true), ScalarValue::Primitive(*pv));
            let want = v_of(pv).int().filter(|x| *x >= 0).map(|x| x as u64);
            for r in [attempt(|| es(usize::try_from(*pv))), attempt(|| es(usize::try_from(&s)))] {
                match (want, r) {
                    (Some(w), Ok(g)) if g as u64 == w => {}
                    (None, Err(m)) if !m.starts_with("panic") => {}
                    (_, r) => return Err(format!("became {r:?}")),
                }
            }
            Ok(())
        },
    );
}

/// The typed views of a scalar show its parts.
fn read_parts(s: &Scalar, t: &T, sv: &ScalarValue) -> Result<(), String> {
    let wrong = |w: &str| Err(format!("the {w} view shows something else"));
    match t {
        T::Bool(_) => {
            let b = es(BoolScalar::try_from(s))?;
            let want = if let ScalarValue::Bool(b) = sv { Some(*b) } else { None };
            if b.value() != want || attempt(|| es(bool::try_from(s))).ok() != want {
                return wrong("bool");
            }
        }
        T::Utf8(_) => {
            let want = if let ScalarValue::BufferString(b) = sv { Some(b.as_str().to_string()) } else { None };
            if es(Utf8Scalar::try_from(s))?.value().map(|x| x.as_str().to_string()) != want || attempt(|| es(String::try_from(s))).ok() != want {
                return wrong("text");
            }
        }
        T::Bin(_) => {
            let want = if let ScalarValue::Buffer(b) = sv { Some(b.as_slice().to_vec()) } else { None };
            if es(BinaryScalar::try_from(s))?.value().map(|x| x.as_slice().to_vec()) != want {
                return wrong("binary");
            }
        }
        T::List(e, _) => {
            let l = es(ListScalar::try_from(s))?;
            let want: &[ScalarValue] = if let ScalarValue::List(l) = sv { l } else { &[] };
            must(e, &l.element_dtype())?;
            if l.len() != want.len() || l.is_empty() != want.is_empty() || l.elements().count() != want.len() {
                return wrong("list");
            }
            for (i, (x, w)) in l.elements().zip(want).enumerate() {
                must(e, x.dtype())?;
                let y = l.element(i).ok_or("an element is missing")?;
                if !sv_same(x.value(), w) || !sv_same(y.value(), w) {
                    return wrong("list");
                }
            }
            if l.element(want.len()).is_some() {
                return wrong("list");
            }
        }
        T::Struct(fs, n) => {
            let v = es(StructScalar::try_from(s))?;
            if v.is_null() != sv.is_null() {
                return wrong("struct");
            }
            let want = if let ScalarValue::List(l) = sv { Some(l) } else { None };
            for i in 0..=fs.len() {
                match (v.field_by_idx(i), want.and_then(|w| w.get(i))) {
                    (None, None) => {}
                    (Some(x), Some(w)) => {
                        must(&fs[i].1, x.dtype())?;
                        if !sv_same(x.value(), w) {
                            return wrong("struct");
                        }
                    }
                    _ => return wrong("struct"),
                }
            }
            for name in ["a", "b", "s", "zz"] {
                let at = fs.iter().position(|f| f.0 == name);
                match (v.field(name), want.and_then(|w| at.map(|i| &w[i]))) {
                    (None, None) => {}
                    (Some(x), Some(w)) if sv_same(x.value(), w) => {}
                    _ => return wrong("struct"),
                }
            }
            let refs = [Field::from("a"), Field::from("b"), Field::from(0usize), Field::from(1usize), Field::from(2usize)];
            for k in 0..=2 {
                for p in seqs(&refs, k) {
                    let idx: Option<Vec<usize>> = p
                        .iter()
                        .map(|f| match f {
                            Field::Name(x) => fs.iter().position(|g| &g.0 == x),
                            Field::Index(i) => (*i < fs.len()).then_some(*i),
                        })
                        .collect();
                    match (idx, attempt(|| es(v.project(&p)))) {
                        (None, Err(m)) if !m.starts_with("panic") => {}
                        (Some(ix), Ok(r)) => {
                            must(&T::Struct(ix.iter().map(|i| fs[*i].clone()).collect(), *n), r.dtype())?;
                            let w = match want {
                                None => ScalarValue::Null,
                                Some(w) => ScalarValue::List(ix.iter().map(|i| w[*i].clone()).collect::<Vec<_>>().into()),
                            };
                            if !sv_same(r.value(), &w) {
                                return wrong("projected");
                            }
                        }
                        (_, r) => return Err(format!("projecting {p:?} gave {r:?}")),
                    }
                }
            }
        }
        T::Ext(..) => {
            if !sv_same(es(ExtScalar::try_from(s))?.value(), sv) {
                return wrong("extension");
            }
        }
        _ => {}
    }
    Ok(())
}
