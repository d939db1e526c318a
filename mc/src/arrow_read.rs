//! Reading Arrow arrays into model values through Arrow's own accessors.
use arrow_array::cast::AsArray;
use arrow_array::types::*;
use arrow_array::{Array as _, ArrayRef};
use arrow_schema::{DataType, TimeUnit as AUnit};
use vortex_dtype::PType;

use crate::model::*;

/// The contents of an Arrow array, read through Arrow's own accessors.
pub fn read_arrow(a: &ArrayRef) -> Result<Vec<V>, String> {
    let n = a.len();
    let nul = |i: usize| a.is_null(i);
    macro_rules! p {
        ($t:ty, $pt:expr, $f:expr) => {{
            let x = a.as_primitive_opt::<$t>().ok_or(format!("not a {}", a.data_type()))?;
            (0..n).map(|i| if nul(i) { V::Null } else { V::P($pt, $f(x.value(i))) }).collect()
        }};
    }
    Ok(match a.data_type() {
        DataType::Null => vec![V::Null; n],
        DataType::Boolean => (0..n).map(|i| if nul(i) { V::Null } else { V::B(a.as_boolean().value(i)) }).collect(),
        DataType::UInt8 => p!(UInt8Type, PType::U8, |x| x as u64),
        DataType::UInt16 => p!(UInt16Type, PType::U16, |x| x as u64),
        DataType::UInt32 => p!(UInt32Type, PType::U32, |x| x as u64),
        DataType::UInt64 => p!(UInt64Type, PType::U64, |x| x),
        DataType::Int8 => p!(Int8Type, PType::I8, |x| x as u8 as u64),
        DataType::Int16 => p!(Int16Type, PType::I16, |x| x as u16 as u64),
        DataType::Int32 => p!(Int32Type, PType::I32, |x| x as u32 as u64),
        DataType::Int64 => p!(Int64Type, PType::I64, |x| x as u64),
        DataType::Float16 => p!(Float16Type, PType::F16, |x: half::f16| x.to_bits() as u64),
        DataType::Float32 => p!(Float32Type, PType::F32, |x: f32| x.to_bits() as u64),
        DataType::Float64 => p!(Float64Type, PType::F64, |x: f64| x.to_bits()),
        DataType::Timestamp(AUnit::Second, _) => p!(TimestampSecondType, PType::I64, |x| x as u64),
        DataType::Timestamp(AUnit::Millisecond, _) => p!(TimestampMillisecondType, PType::I64, |x| x as u64),
        DataType::Timestamp(AUnit::Microsecond, _) => p!(TimestampMicrosecondType, PType::I64, |x| x as u64),
        DataType::Timestamp(AUnit::Nanosecond, _) => p!(TimestampNanosecondType, PType::I64, |x| x as u64),
        DataType::Date32 => p!(Date32Type, PType::I32, |x| x as u32 as u64),
        DataType::Date64 => p!(Date64Type, PType::I64, |x| x as u64),
        DataType::Time32(AUnit::Second) => p!(Time32SecondType, PType::I32, |x| x as u32 as u64),
        DataType::Time32(_) => p!(Time32MillisecondType, PType::I32, |x| x as u32 as u64),
        DataType::Time64(AUnit::Microsecond) => p!(Time64MicrosecondType, PType::I64, |x| x as u64),
        DataType::Time64(_) => p!(Time64NanosecondType, PType::I64, |x| x as u64),
        DataType::Utf8View => (0..n).map(|i| if nul(i) { V::Null } else { V::s(a.as_string_view().value(i)) }).collect(),
        DataType::BinaryView => (0..n).map(|i| if nul(i) { V::Null } else { V::S(a.as_binary_view().value(i).to_vec()) }).collect(),
        DataType::Utf8 => (0..n).map(|i| if nul(i) { V::Null } else { V::s(a.as_string::<i32>().value(i)) }).collect(),
        DataType::LargeUtf8 => (0..n).map(|i| if nul(i) { V::Null } else { V::s(a.as_string::<i64>().value(i)) }).collect(),
        DataType::Binary => (0..n).map(|i| if nul(i) { V::Null } else { V::S(a.as_binary::<i32>().value(i).to_vec()) }).collect(),
        DataType::LargeBinary => (0..n).map(|i| if nul(i) { V::Null } else { V::S(a.as_binary::<i64>().value(i).to_vec()) }).collect(),
        DataType::Struct(_) => {
            let s = a.as_struct();
            let kids: Vec<Vec<V>> = s.columns().iter().map(read_arrow).collect::<Result<_, _>>()?;
            for k in &kids {
                if k.len() != n {
                    return Err("Arrow struct child of another length".into());
                }
            }
            (0..n).map(|i| if nul(i) { V::Null } else { V::Struct(kids.iter().map(|k| k[i].clone()).collect()) }).collect()
        }
        t => return Err(format!("no reader for {t}")),
    })
}
