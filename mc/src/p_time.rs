//! C33 temporal values denote the right instants: what a date, a time or a timestamp is shown as is compared, for
//! every day of the calendar and every second of the day, with the civil calendar computed here from first principles.
use std::fmt::Write;

use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::slice;
use vortex::compute::unary::scalar_at;
use vortex::{Array, ArrayDType};
use vortex_datetime_dtype::{TemporalMetadata, TimeUnit, DATE_ID, TIMESTAMP_ID, TIME_ID};
use vortex_dtype::{DType, ExtDType, ExtID, ExtMetadata, PType};
use vortex_scalar::{PValue, Scalar, ScalarValue};

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::report::{attempt, Ctx};

const DAY: i128 = 86_400;
/// days from 1970-01-01 to -9999-01-01 and to 9999-12-31
const LO: i64 = -4_371_587;
const HI: i64 = 2_932_896;

fn leap(y: i64) -> bool {
    y % 4 == 0 && (y % 100 != 0 || y % 400 == 0)
}
fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Days from 1970-01-01 to the first of January of a year, counted in the proleptic Gregorian calendar.
fn year_start(y: i64) -> i64 {
    let p = y - 1;
    p * 365 + p.div_euclid(4) - p.div_euclid(100) + p.div_euclid(400) - 719_162
}
fn days_of(y: i64, m: i64, d: i64) -> Result<i64, String> {
    if !(1..=12).contains(&m) || d < 1 || d > month_len(y, m) {
        return Err(format!("{y}-{m}-{d} is no date"));
    }
    Ok(year_start(y) + (1..m).map(|k| month_len(y, k)).sum::<i64>() + d - 1)
}

pub fn per_second(u: TimeUnit) -> i128 {
    match u {
        TimeUnit::Ns => 1_000_000_000,
        TimeUnit::Us => 1_000_000,
        TimeUnit::Ms => 1000,
        _ => 1,
    }
}

fn num(s: &str) -> Result<i64, String> {
    if s.is_empty() || !s.bytes().all(|b| b.is_ascii_digit()) {
        return Err(format!("{s:?} is no number"));
    }
    s.parse().map_err(|_| format!("{s:?} is no number"))
}

/// "[-+]YYYY-MM-DD" to days since 1970-01-01
fn read_date(s: &str) -> Result<i64, String> {
    let (neg, r) = match s.strip_prefix('-') {
        Some(r) => (-1, r),
        None => (1, s.strip_prefix('+').unwrap_or(s)),
    };
    let p: Vec<&str> = r.split('-').collect();
    if p.len() != 3 {
        return Err(format!("{s:?} is no date"));
    }
    days_of(neg * num(p[0])?, num(p[1])?, num(p[2])?)
}

/// "HH:MM[:SS[.fff]]" to nanoseconds since midnight
fn read_time(s: &str) -> Result<i128, String> {
    let (hms, frac) = s.split_once('.').unwrap_or((s, ""));
    let p: Vec<&str> = hms.split(':').collect();
    if p.len() < 2 || p.len() > 3 || frac.len() > 9 {
        return Err(format!("{s:?} is no time"));
    }
    let (h, m, sec) = (num(p[0])?, num(p[1])?, if p.len() == 3 { num(p[2])? } else { 0 });
    if h > 23 || m > 59 || sec > 59 {
        return Err(format!("{s:?} is no time of a day"));
    }
    let ns = if frac.is_empty() { 0 } else { num(&format!("{frac:0<9}"))? };
    Ok((h * 3600 + m * 60 + sec) as i128 * 1_000_000_000 + ns as i128)
}

/// "<date>T<time>(Z|±HH:MM)[zone]" to (nanoseconds since 1970-01-01T00:00Z, offset in seconds, zone)
fn read_stamp(s: &str) -> Result<(i128, i64, Option<String>), String> {
    let (s, zone) = match s.split_once('[') {
        Some((a, z)) => (a, Some(z.strip_suffix(']').ok_or("no closing bracket")?.to_string())),
        None => (s, None),
    };
    let (d, t) = s.split_once(['T', ' ']).ok_or_else(|| format!("{s:?} is no timestamp"))?;
    let (t, off) = if let Some(t) = t.strip_suffix('Z') {
        (t, 0)
    } else {
        let k = t.rfind(['+', '-']).ok_or_else(|| format!("{s:?} has no offset"))?;
        let o = read_time(&t[k + 1..])? / 1_000_000_000;
        (&t[..k], if t.as_bytes()[k] == b'-' { -(o as i64) } else { o as i64 })
    };
    let ns = read_date(d)? as i128 * DAY * 1_000_000_000 + read_time(t)? - off as i128 * 1_000_000_000;
    Ok((ns, off, zone))
}

/// The offset from UTC of the zones used here, from their rules (for New York those since 2007).
fn offset(zone: &str, ns: i128) -> i64 {
    match zone {
        "Asia/Kathmandu" => 5 * 3600 + 45 * 60,
        "Pacific/Guam" => 10 * 3600,
        "America/New_York" => {
            let sec = ns.div_euclid(1_000_000_000) as i64;
            let mut y = 1970 + sec.div_euclid(31_556_952);
            while year_start(y) * 86_400 > sec {
                y -= 1;
            }
            while year_start(y + 1) * 86_400 <= sec {
                y += 1;
            }
            // 1970-01-01 was a Thursday
            let sunday = |d: i64| d + (3 - d.rem_euclid(7)).rem_euclid(7);
            let on = (sunday(days_of(y, 3, 1).unwrap()) + 7) * 86_400 + 7 * 3600;
            let off = sunday(days_of(y, 11, 1).unwrap()) * 86_400 + 6 * 3600;
            if sec >= on && sec < off {
                -4 * 3600
            } else {
                -5 * 3600
            }
        }
        _ => 0,
    }
}

fn ext(m: &TemporalMetadata) -> ExtDType {
    let id: ExtID = match m {
        TemporalMetadata::Time(_) => TIME_ID.clone(),
        TemporalMetadata::Date(_) => DATE_ID.clone(),
        TemporalMetadata::Timestamp(..) => TIMESTAMP_ID.clone(),
    };
    ExtDType::new(id, Some(ExtMetadata::from(m.clone())))
}

/// What the text says, in units of the metadata (days for dates)
fn told(m: &TemporalMetadata, s: &str) -> Result<i128, String> {
    let whole = |ns: i128, u: TimeUnit| {
        let k = 1_000_000_000 / per_second(u);
        if ns % k != 0 {
            return Err(format!("{s:?} is finer than {u}"));
        }
        Ok(ns / k)
    };
    match m {
        TemporalMetadata::Date(u) => {
            let d = read_date(s)? as i128;
            Ok(if *u == TimeUnit::D { d } else { d * DAY * per_second(*u) })
        }
        TemporalMetadata::Time(u) => whole(read_time(s)?, *u),
        TemporalMetadata::Timestamp(u, tz) => {
            let (ns, off, zone) = read_stamp(s)?;
            if zone != *tz {
                return Err(format!("{s:?} names zone {zone:?} instead of {tz:?}"));
            }
            let want = tz.as_ref().map(|z| offset(z, ns)).unwrap_or(0);
            if off != want {
                return Err(format!("{s:?} has offset {off} s instead of {want} s"));
            }
            whole(ns, *u)
        }
    }
}

/// Is there such a day, time or instant?
fn exists(m: &TemporalMetadata, v: i64) -> bool {
    let v = v as i128;
    match m {
        TemporalMetadata::Date(TimeUnit::D) => v >= LO as i128 && v <= HI as i128,
        TemporalMetadata::Date(TimeUnit::Ms) => v >= LO as i128 * DAY * 1000 && v <= HI as i128 * DAY * 1000,
        TemporalMetadata::Date(_) => false,
        TemporalMetadata::Time(TimeUnit::D) | TemporalMetadata::Timestamp(TimeUnit::D, _) => false,
        TemporalMetadata::Time(u) => v >= 0 && v < DAY * per_second(*u),
        // one nanosecond count has no span of its own in the calendar library and is refused
        TemporalMetadata::Timestamp(TimeUnit::Ns, _) if v == i64::MIN as i128 => false,
        // the last days of the calendar may be refused, since they do not exist in every zone
        TemporalMetadata::Timestamp(u, _) => v >= (LO as i128 + 3) * DAY * per_second(*u) && v <= (HI as i128 - 3) * DAY * per_second(*u),
    }
}
fn beyond(m: &TemporalMetadata, v: i64) -> bool {
    let v = v as i128;
    match m {
        TemporalMetadata::Timestamp(TimeUnit::Ns, _) => false,
        TemporalMetadata::Timestamp(u, _) if *u != TimeUnit::D => v < (LO as i128 - 1) * DAY * per_second(*u) || v > (HI as i128 + 2) * DAY * per_second(*u),
        TemporalMetadata::Date(TimeUnit::Ms) => v <= (LO as i128 - 1) * DAY * 1000 || v >= (HI as i128 + 1) * DAY * 1000,
        _ => !exists(m, v as i64),
    }
}

fn jiff(m: &TemporalMetadata, v: i64) -> Result<(), String> {
    match m.to_jiff(v) {
        Err(_) if exists(m, v) => Err("refused".into()),
        Err(_) => Ok(()),
        Ok(j) if beyond(m, v) => Err(format!("shown as {j}")),
        Ok(j) => {
            let s = j.to_string();
            let t = told(m, &s)?;
            if t != v as i128 {
                return Err(format!("shown as {s}, which is {t}"));
            }
            Ok(())
        }
    }
}

fn shown(s: &Scalar) -> Result<String, String> {
    let mut o = String::new();
    write!(o, "{s}").map_err(|_| "cannot be shown".to_string())?;
    Ok(o)
}

/// The scalar of the extension type, in each of the two widths that the storage may have
fn scalar(m: &TemporalMetadata, d: &ExtDType, v: i64) -> Result<(), String> {
    let mut p = vec![PValue::I64(v)];
    if let Ok(w) = i32::try_from(v) {
        p.push(PValue::I32(w));
    }
    for p in p {
        for n in [false, true] {
            let s = shown(&Scalar::new(DType::Extension(d.clone(), nn(n)), ScalarValue::Primitive(p)));
            match s {
                Err(e) if exists(m, v) => return Err(e),
                Err(_) => {}
                Ok(s) if beyond(m, v) => return Err(format!("shown as {s}")),
                Ok(s) => {
                    let t = told(m, &s)?;
                    if t != v as i128 {
                        return Err(format!("{p:?} shown as {s}, which is {t}"));
                    }
                }
            }
        }
    }
    Ok(())
}

const UNITS: [TimeUnit; 5] = [TimeUnit::Ns, TimeUnit::Us, TimeUnit::Ms, TimeUnit::S, TimeUnit::D];

fn zones() -> Vec<Option<String>> {
    [None, Some("UTC"), Some("America/New_York"), Some("Pacific/Guam"), Some("Asia/Kathmandu")].iter().map(|z| z.map(|s| s.to_string())).collect()
}

pub fn c33(ctx: &Ctx) {
    let full = ctx.thorough;
    let span = |lo: i64, hi: i64, step: usize, m: &TemporalMetadata, f: &(dyn Fn(i64) -> Vec<i64> + Sync)| {
        let d = ext(m);
        ctx.state();
        let blocks: Vec<i64> = (lo..=hi).step_by(4096).collect();
        blocks.into_par_iter().for_each(|b| {
            for x in (b..=(b + 4095).min(hi)).step_by(step) {
                for v in f(x) {
                    ctx.check(|| format!("instant|{m:?}|{v}"), || jiff(m, v));
                    if x % 97 == 0 {
                        ctx.check(|| format!("scalar|{m:?}|{v}"), || scalar(m, &d, v));
                    }
                }
            }
        });
    };

    // every day, every second of the day
    let dd = TemporalMetadata::Date(TimeUnit::D);
    span(LO - 400, HI + 400, 1, &dd, &|d| vec![d]);
    span(LO - 400, HI + 400, if full { 1 } else { 3 }, &TemporalMetadata::Date(TimeUnit::Ms), &|d| vec![d * 86_400_000]);
    ctx.bound("every day of the years -9999 to 9999 and 400 days on either side, as a day count and (quick: every third) in milliseconds");
    for u in [TimeUnit::S, TimeUnit::Ms, TimeUnit::Us, TimeUnit::Ns] {
        let k = per_second(u) as i64;
        let fr: Vec<i64> = [0, 1, k / 2, k - 1, k / 10, k / 1000, 7 * k / 9].into_iter().filter(|f| *f >= 0 && *f < k).collect();
        let fr = &fr;
        span(-200, 86_400 + 200, 1, &TemporalMetadata::Time(u), &|s| fr.iter().map(|f| s * k + f).collect());
        for z in zones() {
            let m = TemporalMetadata::Timestamp(u, z.clone());
            // New York's rules of other years are not modelled
            let (lo, hi) = match z.as_deref() {
                Some("America/New_York") => (year_start(2007), year_start(2038) - 1),
                Some("Pacific/Guam") => (year_start(2001), year_start(2200)),
                Some("Asia/Kathmandu") => (year_start(1986) + 1, year_start(2200)),
                _ => (LO - 400, HI + 400),
            };
            // nanoseconds since 1970 fit 64 bits from 1677 to 2262 only
            let (lo, hi) = if u == TimeUnit::Ns { (lo.max(-106_751), hi.min(106_750)) } else { (lo, hi) };
            let step = if z.is_none() || full || hi - lo < 20_000 { 1 } else { 5 };
            let step = if hi - lo > 1_000_000 && !full { step * 3 } else { step };
            span(lo, hi, step, &m, &|d| {
                let b = d * 86_400;
                let mut v = vec![b * k, (b + 45_296) * k + fr[fr.len() - 1], (b + 86_399) * k + (k - 1)];
                if hi - lo < 100_000 {
                    v.extend((1..24).map(|h| (b + h * 3600) * k));
                    v.extend((1..24).map(|h| (b + h * 3600) * k - 1));
                }
                v
            });
        }
    }
    ctx.bound("every second of the day (and 200 on either side) with seven fractions in every unit; timestamps at midnight, noon and the last unit of (every, quick: every third to fifteenth) day in every unit, without zone, in UTC, and to the hour in zones with whole, quarter-hour and seasonal offsets");

    // hot values
    let mut hv = vec![];
    for b in 0..64 {
        let p = 1i64.checked_shl(b).unwrap_or(0);
        for d in [-1, 0, 1] {
            hv.push(p.wrapping_add(d));
            hv.push(p.wrapping_add(d).wrapping_neg());
        }
    }
    for e in 0..19 {
        let p = 10i64.pow(e);
        for d in [-1, 0, 1] {
            for k in [1, 5, 9] {
                hv.push(p.saturating_mul(k).saturating_add(d));
                hv.push(-(p.saturating_mul(k).saturating_add(d)));
            }
        }
    }
    let mut metas = vec![];
    for u in UNITS {
        metas.push(TemporalMetadata::Date(u));
        metas.push(TemporalMetadata::Time(u));
        for z in zones() {
            if !matches!(z.as_deref(), Some("America/New_York" | "Pacific/Guam" | "Asia/Kathmandu")) {
                metas.push(TemporalMetadata::Timestamp(u, z));
            }
        }
    }
    for m in &metas {
        let d = ext(m);
        for v in &hv {
            // milliseconds of a date only mean something if they make up days
            let v = if *m == TemporalMetadata::Date(TimeUnit::Ms) { v.wrapping_mul(86_400_000) / 86_400_000 * 86_400_000 } else { *v };
            ctx.check(|| format!("hot|{m:?}|{v}"), || jiff(m, v));
            ctx.check(|| format!("hotscalar|{m:?}|{v}"), || scalar(m, &d, v));
        }
        ctx.check(
            || format!("null|{m:?}"),
            || match shown(&Scalar::null(DType::Extension(d.clone(), nn(true))))?.as_str() {
                "null" => Ok(()),
                s => Err(format!("null is shown as {s}")),
            },
        );
    }
    ctx.bound(format!("{} values around powers of two and ten in every kind and unit, valid or not", hv.len()));

    // what an array may hold
    let pts = [PType::I8, PType::I16, PType::I32, PType::I64, PType::U8, PType::U16, PType::U32, PType::U64, PType::F32, PType::F64];
    for kind in 0..3 {
        for u in UNITS {
            for p in pts.iter().map(|p| Some(*p)).chain([None]) {
                let want = match (kind, u) {
                    (0, TimeUnit::D) => Some(PType::I32),
                    (0, TimeUnit::Ms) => Some(PType::I64),
                    (1, TimeUnit::S | TimeUnit::Ms) => Some(PType::I32),
                    (1, TimeUnit::Us | TimeUnit::Ns) => Some(PType::I64),
                    (2, TimeUnit::S | TimeUnit::Ms | TimeUnit::Us | TimeUnit::Ns) => Some(PType::I64),
                    _ => None,
                };
                for n in [false, true] {
                    for z in if kind == 2 { vec![None, Some("UTC".to_string())] } else { vec![None] } {
                        let d = p.map_or(DType::Utf8(nn(n)), |p| prim(p, n));
                        let a = plain(&Col::new(d.clone(), vec![default_v(&d), if n { V::Null } else { default_v(&d) }]));
                        ctx.state();
                        ctx.check(
                            || format!("make|{kind}|{u}|{p:?}|{n}|{z:?}"),
                            || {
                                let r = attempt(|| {
                                    Ok(match kind {
                                        0 => TemporalArray::new_date(a.clone(), u),
                                        1 => TemporalArray::new_time(a.clone(), u),
                                        _ => TemporalArray::new_timestamp(a.clone(), u, z.clone()),
                                    })
                                });
                                let ok = want.is_some() && want == p;
                                match r {
                                    Err(_) if !ok => Ok(()),
                                    Err(e) => Err(e),
                                    Ok(_) if !ok => Err("accepted".into()),
                                    Ok(t) => {
                                        let m = match kind {
                                            0 => TemporalMetadata::Date(u),
                                            1 => TemporalMetadata::Time(u),
                                            _ => TemporalMetadata::Timestamp(u, z.clone()),
                                        };
                                        if t.temporal_metadata() != &m || t.ext_dtype() != &ext(&m) {
                                            return Err(format!("has metadata {:?}", t.temporal_metadata()));
                                        }
                                        same_storage(&t.temporal_values(), &a)?;
                                        let b: Array = t.clone().into();
                                        let t2 = es(TemporalArray::try_from(&b))?;
                                        if t2.temporal_metadata() != &m || b.dtype() != &DType::Extension(ext(&m), nn(n)) {
                                            return Err(format!("becomes an array of {}", b.dtype()));
                                        }
                                        let t3 = es(TemporalArray::try_from(ExtensionArray::from(t)))?;
                                        if t3.temporal_metadata() != &m {
                                            return Err("changes its metadata on the way through an extension array".into());
                                        }
                                        same_storage(&t3.temporal_values(), &a)
                                    }
                                }
                            },
                        );
                    }
                }
            }
        }
    }
    ctx.bound("the three kinds of temporal array x every unit x every storage type: accepted exactly where documented, refused by a panic elsewhere, and read back unchanged");

    // metadata: every value is stored unambiguously, and what was not written by it is refused with an error
    let mut tz = zones();
    tz.extend(["", "Z", "+01:00", "Etc/GMT+12", "zone with spaces", "Ünïcode/Zone"].map(|s| Some(s.to_string())));
    tz.push(Some("x".repeat(255)));
    tz.push(Some("x".repeat(256)));
    tz.push(Some("y".repeat(65_535)));
    let mut all = vec![];
    for u in UNITS {
        all.push(TemporalMetadata::Date(u));
        all.push(TemporalMetadata::Time(u));
        for z in &tz {
            if z.as_deref() != Some("") {
                all.push(TemporalMetadata::Timestamp(u, z.clone()));
            }
        }
    }
    for (i, m) in all.iter().enumerate() {
        ctx.state();
        ctx.check(
            || format!("meta|{i}"),
            || {
                let e = ext(m);
                let r = es(TemporalMetadata::try_from(&e))?;
                if &r != m || r.time_unit() != m.time_unit() || r.time_zone() != m.time_zone() {
                    return Err(format!("read back as {r:?}"));
                }
                for o in &all {
                    if (o == m) != (ext(o) == e) {
                        return Err(format!("stored like {o:?}"));
                    }
                }
                Ok(())
            },
        );
        // cut off at any byte
        let bytes = ExtMetadata::from(m.clone()).as_ref().to_vec();
        for k in (0..bytes.len()).filter(|k| *k < 12 || full || k % 1000 == 0) {
            ctx.check(
                || format!("metacut|{i}|{k}"),
                || match TemporalMetadata::try_from(&ExtDType::new(ext(m).id().clone(), Some(ExtMetadata::from(&bytes[..k])))) {
                    Err(_) => Ok(()),
                    Ok(r) => Err(format!("{k} of {} bytes are read as {r:?}", bytes.len())),
                },
            );
        }
    }
    let mut raws: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        raws.push(vec![a]);
        for b in [0, 1, 2, 255] {
            raws.push(vec![a, b]);
            for c in [0, 1, 255] {
                raws.push(vec![a, b, c]);
                raws.push(vec![a, b, c, b'Z']);
                raws.push(vec![a, b, c, 0xff]);
            }
        }
    }
    for id in [DATE_ID.clone(), TIME_ID.clone(), TIMESTAMP_ID.clone(), ExtID::from("vortex.other"), ExtID::from("")] {
        for r in &raws {
            ctx.check(
                || format!("metaraw|{id}|{r:?}"),
                || {
                    let e = ExtDType::new(id.clone(), Some(ExtMetadata::from(&r[..])));
                    match TemporalMetadata::try_from(&e) {
                        Err(_) => Ok(()),
                        Ok(m) if r.is_empty() || r[0] as usize >= UNITS.len() => Err(format!("read as {m:?}")),
                        Ok(m) => {
                            let kind_ok = match &m {
                                TemporalMetadata::Date(_) => id == *DATE_ID,
                                TemporalMetadata::Time(_) => id == *TIME_ID,
                                TemporalMetadata::Timestamp(..) => id == *TIMESTAMP_ID,
                            };
                            if !kind_ok || m.time_unit() != UNITS[r[0] as usize] {
                                return Err(format!("read as {m:?}"));
                            }
                            Ok(())
                        }
                    }
                },
            );
        }
        ctx.check(
            || format!("metanone|{id}"),
            || match TemporalMetadata::try_from(&ExtDType::new(id.clone(), None)) {
                Err(_) => Ok(()),
                Ok(m) => Err(format!("read as {m:?}")),
            },
        );
    }
    ctx.bound(format!("{} kinds of metadata: distinct when stored, the same when read back, refused with an error when cut off at any byte; {} byte strings as the metadata of every temporal type", all.len(), raws.len()));

    // Arrow's names for the types
    use arrow_schema::{DataType as A, TimeUnit as T};
    let ts = [(T::Second, TimeUnit::S), (T::Millisecond, TimeUnit::Ms), (T::Microsecond, TimeUnit::Us), (T::Nanosecond, TimeUnit::Ns)];
    let mut pairs = vec![(A::Date32, TemporalMetadata::Date(TimeUnit::D)), (A::Date64, TemporalMetadata::Date(TimeUnit::Ms))];
    for (t, u) in ts {
        pairs.push((if matches!(t, T::Second | T::Millisecond) { A::Time32(t) } else { A::Time64(t) }, TemporalMetadata::Time(u)));
        for z in &tz {
            if z.as_deref() != Some("") {
                pairs.push((A::Timestamp(t, z.as_deref().map(|z| z.into())), TemporalMetadata::Timestamp(u, z.clone())));
            }
        }
    }
    for (k, (a, m)) in pairs.iter().enumerate() {
        ctx.check(
            || format!("arrow|{k}"),
            || {
                let e = vortex_datetime_dtype::arrow::make_temporal_ext_dtype(a);
                if e != ext(m) {
                    return Err(format!("{a} becomes {e:?}"));
                }
                let b = vortex_datetime_dtype::arrow::make_arrow_temporal_dtype(&e);
                if &b != a {
                    return Err(format!("{a} comes back as {b}"));
                }
                Ok(())
            },
        );
    }
    ctx.bound(format!("{} Arrow temporal types to extension types and back", pairs.len()));

    // elements of arrays
    let mut cols = vec![];
    for n in [false, true] {
        let mut fams = ts_fams(n);
        if !full {
            fams.retain(|f| ext_unit(&Col::new(f.dtype.clone(), vec![])).is_some());
        }
        for f in fams {
            cols.extend(small_cols(&f, 1, if full { 3 } else { 2 }));
        }
    }
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        let DType::Extension(e, _) = &s.col.dtype else { return };
        let Ok(m) = TemporalMetadata::try_from(e) else { return };
        for cut in 0..n {
            ctx.check(
                || format!("element|{}|{}|{cut}", s.enc, s.col.desc()),
                || {
                    let a = es(slice(&s.arr, cut, n))?;
                    for i in cut..n {
                        let v = es(scalar_at(&a, i - cut))?;
                        if s.col.vals[i].is_null() {
                            if shown(&v)? != "null" {
                                return Err(format!("null is shown as {}", shown(&v)?));
                            }
                            continue;
                        }
                        let want = s.col.vals[i].int().unwrap() as i64;
                        let r = shown(&v);
                        if exists(&m, want) && !(m == TemporalMetadata::Date(TimeUnit::Ms) && want % 86_400_000 != 0) && !matches!(m.time_zone(), Some(z) if z != "UTC") {
                            let t = told(&m, &r?)?;
                            if t != want as i128 {
                                return Err(format!("element {i} says {t} instead of {want}"));
                            }
                        }
                    }
                    Ok(())
                },
            );
        }
    });
    ctx.bound("the elements of temporal columns in every encoding, sliced, as they are shown");
}

fn same_storage(got: &Array, want: &Array) -> Result<(), String> {
    if got.dtype() != want.dtype() || got.len() != want.len() {
        return Err(format!("holds {} of {} elements", got.dtype(), got.len()));
    }
    let (x, y) = (observe(got)?, observe(want)?);
    if x.vals != y.vals {
        return Err("holds other values".into());
    }
    Ok(())
}
