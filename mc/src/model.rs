//! The reference model: a column is a `Vec` of plain values. Nothing here depends on how the
//! library stores anything; `observe` is the only bridge (it decodes an array to its canonical
//! buffers and reads the raw bytes and the null mask).
use std::cmp::Ordering;
use std::fmt;

use vortex::array::*;
use vortex::validity::Validity;
use vortex::{Array, ArrayDType, Canonical, IntoArray, IntoArrayVariant, IntoCanonical};
use vortex_dtype::{DType, Nullability, PType};
use vortex_scalar::{Scalar, ScalarValue};

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum V {
    Null,
    B(bool),
    /// Primitive value as its raw little-endian bits, zero extended.
    P(PType, u64),
    /// UTF-8 or binary contents.
    S(Vec<u8>),
    Struct(Vec<V>),
}

impl fmt::Debug for V {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            V::Null => write!(f, "_"),
            V::B(b) => write!(f, "{}", if *b { "T" } else { "F" }),
            V::P(p, b) => match p {
                PType::F16 => write!(f, "h{:#x}", b),
                PType::F32 => write!(f, "{:?}", f32::from_bits(*b as u32)),
                PType::F64 => write!(f, "{:?}", f64::from_bits(*b)),
                _ => write!(f, "{}", self.int().unwrap()),
            },
            V::S(s) => {
                if s.len() > 24 {
                    write!(f, "{:?}..[{}]", String::from_utf8_lossy(&s[..8]), s.len())
                } else {
                    write!(f, "{:?}", String::from_utf8_lossy(s))
                }
            }
            V::Struct(v) => write!(f, "{:?}", v),
        }
    }
}

impl V {
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            V::P(p, b) => Some(match p {
                PType::U8 => *b as u8 as i128,
                PType::U16 => *b as u16 as i128,
                PType::U32 => *b as u32 as i128,
                PType::U64 => *b as i128,
                PType::I8 => *b as u8 as i8 as i128,
                PType::I16 => *b as u16 as i16 as i128,
                PType::I32 => *b as u32 as i32 as i128,
                PType::I64 => *b as i64 as i128,
                _ => return None,
            }),
            _ => None,
        }
    }
    pub fn float(&self) -> Option<f64> {
        match self {
            V::P(PType::F16, b) => Some(half::f16::from_bits(*b as u16).to_f64()),
            V::P(PType::F32, b) => Some(f32::from_bits(*b as u32) as f64),
            V::P(PType::F64, b) => Some(f64::from_bits(*b)),
            _ => None,
        }
    }
    pub fn is_nan(&self) -> bool {
        self.float().is_some_and(|f| f.is_nan())
    }
    pub fn of_int(p: PType, x: i128) -> V {
        let b = x as i64 as u64;
        let w = p.bit_width();
        V::P(p, if w == 64 { b } else { b & ((1u64 << w) - 1) })
    }
    pub fn f64(x: f64) -> V {
        V::P(PType::F64, x.to_bits())
    }
    pub fn f32(x: f32) -> V {
        V::P(PType::F32, x.to_bits() as u64)
    }
    pub fn f16(x: half::f16) -> V {
        V::P(PType::F16, x.to_bits() as u64)
    }
    pub fn s(x: &str) -> V {
        V::S(x.as_bytes().to_vec())
    }
}

/// Order of two non-null values of the same type; None where unordered (NaN).
pub fn vcmp(a: &V, b: &V) -> Option<Ordering> {
    match (a, b) {
        (V::B(x), V::B(y)) => Some(x.cmp(y)),
        (V::P(p, _), V::P(..)) if p.is_float() => a.float()?.partial_cmp(&b.float()?),
        (V::P(..), V::P(..)) => Some(a.int()?.cmp(&b.int()?)),
        (V::S(x), V::S(y)) => Some(x.cmp(y)),
        (V::Struct(x), V::Struct(y)) => {
            for (i, j) in x.iter().zip(y) {
                match vcmp(i, j)? {
                    Ordering::Equal => {}
                    o => return Some(o),
                }
            }
            Some(Ordering::Equal)
        }
        _ => None,
    }
}

/// Nulls sort last.
pub fn vcmp_nl(a: &V, b: &V) -> Ordering {
    match (a.is_null(), b.is_null()) {
        (true, true) => Ordering::Equal,
        (true, false) => Ordering::Greater,
        (false, true) => Ordering::Less,
        _ => vcmp(a, b).unwrap_or(Ordering::Equal),
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Col {
    pub dtype: DType,
    pub vals: Vec<V>,
}

impl Col {
    pub fn new(dtype: DType, vals: Vec<V>) -> Self {
        Col { dtype, vals }
    }
    pub fn len(&self) -> usize {
        self.vals.len()
    }
    pub fn nullable(&self) -> bool {
        self.dtype.is_nullable()
    }
    pub fn has_nulls(&self) -> bool {
        self.vals.iter().any(V::is_null)
    }
    pub fn slice(&self, a: usize, b: usize) -> Col {
        Col::new(self.dtype.clone(), self.vals[a..b].to_vec())
    }
    pub fn take(&self, idx: &[usize]) -> Col {
        Col::new(self.dtype.clone(), idx.iter().map(|i| self.vals[*i].clone()).collect())
    }
    pub fn filter(&self, m: &[bool]) -> Col {
        Col::new(
            self.dtype.clone(),
            self.vals.iter().zip(m).filter(|(_, k)| **k).map(|(v, _)| v.clone()).collect(),
        )
    }
    pub fn concat(parts: &[Col]) -> Col {
        Col::new(parts[0].dtype.clone(), parts.iter().flat_map(|p| p.vals.clone()).collect())
    }
    pub fn desc(&self) -> String {
        if self.vals.len() <= 24 {
            format!("{}{:?}", self.dtype, self.vals)
        } else {
            use std::hash::{Hash, Hasher};
            let mut h = std::collections::hash_map::DefaultHasher::new();
            self.vals.hash(&mut h);
            format!("{}[len={} {:?}.. h={:08x}]", self.dtype, self.vals.len(), &self.vals[..4], h.finish() as u32)
        }
    }
}

pub fn nn(n: bool) -> Nullability {
    if n {
        Nullability::Nullable
    } else {
        Nullability::NonNullable
    }
}
pub fn prim(p: PType, n: bool) -> DType {
    DType::Primitive(p, nn(n))
}

// ---------------------------------------------------------------------------------------------
// Observation

fn validity_bits(v: Validity, len: usize) -> Result<Vec<bool>, String> {
    Ok(match v {
        Validity::NonNullable | Validity::AllValid => vec![true; len],
        Validity::AllInvalid => vec![false; len],
        Validity::Array(a) => {
            if a.len() != len {
                return Err(format!("validity child has length {} for array of length {}", a.len(), len));
            }
            let c = observe(&a)?;
            c.vals
                .iter()
                .map(|v| match v {
                    V::B(b) => Ok(*b),
                    _ => Err("null inside validity".to_string()),
                })
                .collect::<Result<Vec<_>, String>>()?
        }
    })
}

fn raw_bits(bytes: &[u8], p: PType, i: usize) -> u64 {
    let w = p.byte_width();
    let mut out = [0u8; 8];
    out[..w].copy_from_slice(&bytes[i * w..(i + 1) * w]);
    u64::from_le_bytes(out)
}

/// Decode an array fully and read it out.
pub fn observe(a: &Array) -> Result<Col, String> {
    let dtype = a.dtype().clone();
    let len = a.len();
    let c = a.clone().into_canonical().map_err(|e| format!("canonicalize: {e}"))?;
    let col = observe_canonical(c)?;
    if col.dtype != dtype {
        return Err(format!("canonical form has type {} for array of type {}", col.dtype, dtype));
    }
    if col.len() != len {
        return Err(format!("canonical form has length {} for array of length {}", col.len(), len));
    }
    Ok(col)
}

pub fn observe_canonical(c: Canonical) -> Result<Col, String> {
    match c {
        Canonical::Null(n) => Ok(Col::new(DType::Null, vec![V::Null; n.len()])),
        Canonical::Bool(b) => {
            let m = validity_bits(b.validity(), b.len())?;
            let buf = b.boolean_buffer();
            if buf.len() != b.len() {
                return Err(format!("bool buffer length {} for array of length {}", buf.len(), b.len()));
            }
            Ok(Col::new(
                b.dtype().clone(),
                (0..b.len()).map(|i| if m[i] { V::B(buf.value(i)) } else { V::Null }).collect(),
            ))
        }
        Canonical::Primitive(p) => {
            let m = validity_bits(p.validity(), p.len())?;
            let pt = p.ptype();
            let bytes = p.buffer().as_slice();
            if bytes.len() < p.len() * pt.byte_width() {
                return Err("primitive buffer too short".into());
            }
            Ok(Col::new(
                p.dtype().clone(),
                (0..p.len()).map(|i| if m[i] { V::P(pt, raw_bits(bytes, pt, i)) } else { V::Null }).collect(),
            ))
        }
        Canonical::VarBinView(v) => {
            let m = validity_bits(v.validity(), v.len())?;
            let mut vals = Vec::with_capacity(v.len());
            for i in 0..v.len() {
                vals.push(if m[i] {
                    V::S(v.bytes_at(i).map_err(|e| format!("bytes_at: {e}"))?.as_slice().to_vec())
                } else {
                    V::Null
                });
            }
            if matches!(v.dtype(), DType::Utf8(_)) {
                for x in &vals {
                    if let V::S(s) = x {
                        std::str::from_utf8(s).map_err(|_| "non-UTF-8 bytes in a string array".to_string())?;
                    }
                }
            }
            Ok(Col::new(v.dtype().clone(), vals))
        }
        Canonical::Struct(s) => {
            let m = validity_bits(s.validity(), s.len())?;
            let mut kids = Vec::new();
            for k in s.children() {
                if k.len() != s.len() {
                    return Err(format!("struct field length {} in struct of length {}", k.len(), s.len()));
                }
                kids.push(observe(&k)?);
            }
            Ok(Col::new(
                s.dtype().clone(),
                (0..s.len())
                    .map(|i| if m[i] { V::Struct(kids.iter().map(|k| k.vals[i].clone()).collect()) } else { V::Null })
                    .collect(),
            ))
        }
        Canonical::Extension(e) => {
            let st = observe(&e.storage())?;
            let c = Col::new(e.dtype().clone(), st.vals);
            // the built-in types say what stores them
            if let DType::Extension(x, _) = &c.dtype {
                if vortex_datetime_dtype::TemporalMetadata::try_from(x).is_ok() && st.dtype.as_nullable() != DType::Primitive(ext_ptype(&c), Nullability::Nullable) {
                    return Err(format!("{} is stored as {}", c.dtype, st.dtype));
                }
            }
            Ok(c)
        }
        #[allow(unreachable_patterns)]
        _ => Err("unsupported canonical form".into()),
    }
}

/// Read a scalar value of the given logical type.
pub fn observe_scalar(s: &Scalar) -> Result<V, String> {
    let sv = s.value();
    from_sv(sv, s.dtype())
}

pub fn from_sv(sv: &ScalarValue, dtype: &DType) -> Result<V, String> {
    if sv.is_null() {
        return Ok(V::Null);
    }
    let s = Scalar::new(dtype.clone(), sv.clone());
    let e = |x: vortex_error::VortexError| format!("scalar {sv} does not read as {dtype}: {x}");
    Ok(match dtype {
        DType::Bool(_) => V::B(bool::try_from(&s).map_err(e)?),
        DType::Primitive(p, _) => {
            let v = match p {
                PType::U8 => u8::try_from(&s).map_err(e)? as u64,
                PType::U16 => u16::try_from(&s).map_err(e)? as u64,
                PType::U32 => u32::try_from(&s).map_err(e)? as u64,
                PType::U64 => u64::try_from(&s).map_err(e)?,
                PType::I8 => i8::try_from(&s).map_err(e)? as u8 as u64,
                PType::I16 => i16::try_from(&s).map_err(e)? as u16 as u64,
                PType::I32 => i32::try_from(&s).map_err(e)? as u32 as u64,
                PType::I64 => i64::try_from(&s).map_err(e)? as u64,
                PType::F16 => half::f16::try_from(&s).map_err(e)?.to_bits() as u64,
                PType::F32 => f32::try_from(&s).map_err(e)?.to_bits() as u64,
                PType::F64 => f64::try_from(&s).map_err(e)?.to_bits(),
            };
            V::P(*p, v)
        }
        DType::Utf8(_) => V::S(
            vortex_scalar::Utf8Scalar::try_from(&s).map_err(e)?.value().ok_or("no utf8 value")?.as_str().as_bytes().to_vec(),
        ),
        DType::Binary(_) => V::S(
            vortex_scalar::BinaryScalar::try_from(&s).map_err(e)?.value().ok_or("no binary value")?.as_slice().to_vec(),
        ),
        DType::Struct(st, _) => {
            let ss = vortex_scalar::StructScalar::try_from(&s).map_err(e)?;
            let mut out = vec![];
            for i in 0..st.names().len() {
                let f = ss.field_by_idx(i).ok_or("missing struct field")?;
                if f.dtype() != &st.dtypes()[i] {
                    return Err(format!("struct scalar field {i} has type {} not {}", f.dtype(), st.dtypes()[i]));
                }
                out.push(observe_scalar(&f)?);
            }
            V::Struct(out)
        }
        DType::Extension(..) => ext_sv(sv)?,
        _ => return Err(format!("scalar type {dtype} not modelled")),
    })
}

/// Extension scalars carry only the storage value; read it by its own width (all our
/// extension columns store i32 or i64).
fn ext_sv(sv: &ScalarValue) -> Result<V, String> {
    for p in [PType::I64, PType::I32] {
        let s = Scalar::new(prim(p, true), sv.clone());
        if let Ok(x) = i64::try_from(&s) {
            return Ok(V::P(p, x as u64));
        }
    }
    Err(format!("extension scalar {sv} is not an integer"))
}

/// Equality of model values that disregards integer width (used for extension storage only).
pub fn same_ext(a: &V, b: &V) -> bool {
    match (a.int(), b.int()) {
        (Some(x), Some(y)) => x == y,
        _ => a == b,
    }
}

// ---------------------------------------------------------------------------------------------
// Building plain arrays from a column

pub fn scalar_of(v: &V, dtype: &DType) -> Scalar {
    let n = dtype.nullability();
    match (v, dtype) {
        (V::Null, _) => Scalar::null(dtype.clone()),
        (V::B(b), _) => Scalar::bool(*b, n),
        (V::P(p, b), DType::Primitive(..)) => match p {
            PType::U8 => Scalar::primitive(*b as u8, n),
            PType::U16 => Scalar::primitive(*b as u16, n),
            PType::U32 => Scalar::primitive(*b as u32, n),
            PType::U64 => Scalar::primitive(*b, n),
            PType::I8 => Scalar::primitive(*b as i8, n),
            PType::I16 => Scalar::primitive(*b as i16, n),
            PType::I32 => Scalar::primitive(*b as i32, n),
            PType::I64 => Scalar::primitive(*b as i64, n),
            PType::F16 => Scalar::primitive(half::f16::from_bits(*b as u16), n),
            PType::F32 => Scalar::primitive(f32::from_bits(*b as u32), n),
            PType::F64 => Scalar::primitive(f64::from_bits(*b), n),
        },
        (V::P(p, b), DType::Extension(..)) => {
            let s = scalar_of(&V::P(*p, *b), &DType::Primitive(*p, n));
            Scalar::new(dtype.clone(), s.value().clone())
        }
        (V::S(s), DType::Utf8(_)) => Scalar::utf8(String::from_utf8(s.clone()).unwrap(), n),
        (V::S(s), _) => Scalar::binary(vortex_buffer::Buffer::from(s.clone()), n),
        (V::Struct(vs), DType::Struct(st, _)) => Scalar::new(
            dtype.clone(),
            ScalarValue::List(
                vs.iter()
                    .zip(st.dtypes().iter())
                    .map(|(v, d)| scalar_of(v, d).value().clone())
                    .collect::<Vec<_>>()
                    .into(),
            ),
        ),
        _ => panic!("scalar_of {v:?} {dtype}"),
    }
}

/// What sits in the value slot under a null.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fill {
    Zero,
    Garbage,
}

pub fn validity_of(c: &Col) -> Validity {
    if !c.nullable() {
        return Validity::NonNullable;
    }
    if c.len() > 0 && c.vals.iter().all(V::is_null) {
        return Validity::AllInvalid;
    }
    if !c.has_nulls() {
        return Validity::AllValid;
    }
    validity_array(c)
}
/// Always an explicit boolean array.
pub fn validity_array(c: &Col) -> Validity {
    Validity::Array(
        BoolArray::from_vec(c.vals.iter().map(|v| !v.is_null()).collect(), Validity::NonNullable).into_array(),
    )
}

pub fn prim_with(c: &Col, p: PType, fill: Fill, validity: Validity) -> PrimitiveArray {
    let g: u64 = match fill {
        Fill::Zero => 0,
        Fill::Garbage => {
            // a value distinct from anything usual: for floats a NaN, for ints the maximum
            match p {
                PType::F16 => half::f16::NAN.to_bits() as u64,
                PType::F32 => f32::NAN.to_bits() as u64,
                PType::F64 => f64::NAN.to_bits(),
                p if p.is_signed_int() => (1u64 << (p.bit_width() - 1)) - 1,
                p => u64::MAX >> (64 - p.bit_width()),
            }
        }
    };
    let raw: Vec<u64> = c.vals.iter().map(|v| if let V::P(_, b) = v { *b } else { g }).collect();
    macro_rules! go {
        ($t:ty, $f:expr) => {
            PrimitiveArray::from_vec(raw.iter().map($f).collect::<Vec<$t>>(), validity)
        };
    }
    match p {
        PType::U8 => go!(u8, |b| *b as u8),
        PType::U16 => go!(u16, |b| *b as u16),
        PType::U32 => go!(u32, |b| *b as u32),
        PType::U64 => go!(u64, |b| *b),
        PType::I8 => go!(i8, |b| *b as i8),
        PType::I16 => go!(i16, |b| *b as i16),
        PType::I32 => go!(i32, |b| *b as i32),
        PType::I64 => go!(i64, |b| *b as i64),
        PType::F16 => go!(half::f16, |b| half::f16::from_bits(*b as u16)),
        PType::F32 => go!(f32, |b| f32::from_bits(*b as u32)),
        PType::F64 => go!(f64, |b| f64::from_bits(*b)),
    }
}

pub fn bool_with(c: &Col, fill: Fill, validity: Validity) -> BoolArray {
    BoolArray::from_vec(
        c.vals.iter().map(|v| match v { V::B(b) => *b, _ => fill == Fill::Garbage }).collect(),
        validity,
    )
}

pub fn varbin(c: &Col) -> VarBinArray {
    VarBinArray::from_iter(
        c.vals.iter().map(|v| match v { V::S(s) => Some(s.clone()), _ => None }),
        c.dtype.clone(),
    )
}
pub fn varbinview(c: &Col) -> VarBinViewArray {
    let it = c.vals.iter().map(|v| match v { V::S(s) => Some(s.clone()), _ => None });
    if matches!(c.dtype, DType::Utf8(_)) {
        if c.nullable() {
            VarBinViewArray::from_iter_nullable_str(it.map(|o| o.map(|s| String::from_utf8(s).unwrap())))
        } else {
            VarBinViewArray::from_iter_str(c.vals.iter().map(|v| match v {
                V::S(s) => String::from_utf8(s.clone()).unwrap(),
                _ => unreachable!(),
            }))
        }
    } else if c.nullable() {
        VarBinViewArray::from_iter_nullable_bin(it)
    } else {
        VarBinViewArray::from_iter_bin(it.map(|o| o.unwrap()))
    }
}

/// The plain (canonical) array holding these elements.
pub fn plain(c: &Col) -> Array {
    plain_with(c, Fill::Zero, validity_of(c))
}

pub fn plain_with(c: &Col, fill: Fill, validity: Validity) -> Array {
    match &c.dtype {
        DType::Null => NullArray::new(c.len()).into_array(),
        DType::Bool(_) => bool_with(c, fill, validity).into_array(),
        DType::Primitive(p, _) => prim_with(c, *p, fill, validity).into_array(),
        DType::Utf8(_) | DType::Binary(_) => varbinview(c).into_array(),
        DType::Struct(st, _) => {
            let kids: Vec<Array> = (0..st.names().len())
                .map(|k| {
                    let d = st.dtypes()[k].clone();
                    let vals = c
                        .vals
                        .iter()
                        .map(|v| match v {
                            V::Struct(f) => f[k].clone(),
                            _ => default_v(&d),
                        })
                        .collect();
                    plain(&Col::new(d, vals))
                })
                .collect();
            StructArray::try_new(st.names().clone(), kids, c.len(), validity).unwrap().into_array()
        }
        DType::Extension(ext, n) => {
            let p = ext_ptype(c);
            let st = Col::new(DType::Primitive(p, *n), c.vals.clone());
            ExtensionArray::new(ext.clone(), plain(&st)).into_array()
        }
        d => panic!("plain {d}"),
    }
}

/// Storage type of a temporal column, from its logical type.
pub fn ext_ptype(c: &Col) -> PType {
    let DType::Extension(e, _) = &c.dtype else { panic!("not an extension type") };
    match vortex_datetime_dtype::TemporalMetadata::try_from(e) {
        Ok(vortex_datetime_dtype::TemporalMetadata::Date(vortex_datetime_dtype::TimeUnit::D)) => PType::I32,
        Ok(vortex_datetime_dtype::TemporalMetadata::Time(
            vortex_datetime_dtype::TimeUnit::S | vortex_datetime_dtype::TimeUnit::Ms,
        )) => PType::I32,
        _ => PType::I64,
    }
}

pub fn default_v(d: &DType) -> V {
    if d.is_nullable() {
        return V::Null;
    }
    match d {
        DType::Null => V::Null,
        DType::Bool(_) => V::B(false),
        DType::Primitive(p, _) => V::P(*p, 0),
        DType::Utf8(_) | DType::Binary(_) => V::S(vec![]),
        DType::Struct(st, _) => V::Struct(st.dtypes().iter().map(default_v).collect()),
        DType::Extension(..) => V::P(PType::I64, 0),
        _ => V::Null,
    }
}

/// Compare observed elements against expected ones; returns a description of the first difference.
pub fn diff(got: &Col, want: &Col) -> Option<String> {
    if got.dtype != want.dtype {
        return Some(format!("type {} instead of {}", got.dtype, want.dtype));
    }
    diff_vals(&got.vals, &want.vals)
}
pub fn diff_vals(got: &[V], want: &[V]) -> Option<String> {
    if got.len() != want.len() {
        return Some(format!("length {} instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g != w {
            return Some(format!("element {i} is {g:?} instead of {w:?}"));
        }
    }
    None
}
#[allow(dead_code)]
pub fn touch(a: &Array) -> bool {
    a.clone().into_bool().is_ok()
}
