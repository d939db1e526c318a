//! C06 comparison, C07 and/or, C08 sorted search.

use rayon::prelude::*;
use vortex::array::*;
use vortex::compute::{
    and, compare, or, search_sorted, search_sorted_many, search_sorted_u64, search_sorted_u64_many, slice, Operator, SearchResult,
    SearchSortedSide,
};
use vortex::stats::{ArrayStatistics, Stat};
use vortex::{Array, ArrayDType, IntoArray};
use vortex_dtype::{DType, PType};
use vortex_scalar::Scalar;

use crate::gen::*;
use crate::model::*;
use crate::ops::*;
use crate::p_core::{far_types, long_subset, preludes, run_ops_ok};
use crate::report::{attempt, Ctx};

pub const OPS: [Operator; 6] = [Operator::Eq, Operator::NotEq, Operator::Gt, Operator::Gte, Operator::Lt, Operator::Lte];

pub use crate::stat_model::tcmp;
pub fn cmp_v(a: &V, b: &V, op: Operator) -> V {
    if a.is_null() || b.is_null() {
        return V::Null;
    }
    let o = tcmp(a, b);
    V::B(match op {
        Operator::Eq => o.is_eq(),
        Operator::NotEq => o.is_ne(),
        Operator::Gt => o.is_gt(),
        Operator::Gte => o.is_ge(),
        Operator::Lt => o.is_lt(),
        Operator::Lte => o.is_le(),
    })
}

/// Read a boolean result whatever its nullability.
pub fn bools(a: &Array, n: usize) -> Result<Vec<V>, String> {
    if !matches!(a.dtype(), DType::Bool(_)) {
        return Err(format!("type {} instead of bool", a.dtype()));
    }
    if a.len() != n {
        return Err(format!("length {} instead of {n}", a.len()));
    }
    Ok(observe(a)?.vals)
}

fn check_compare(l: &Array, r: &Array, lc: &Col, rc: &Col, op: Operator) -> Result<(), String> {
    let a = es(compare(l, r, op))?;
    let want: Vec<V> = lc.vals.iter().zip(&rc.vals).map(|(x, y)| cmp_v(x, y, op)).collect();
    let got = bools(&a, lc.len())?;
    match diff_vals(&got, &want) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

pub fn warm(a: &Array) {
    let _ = attempt(|| {
        for s in [Stat::IsConstant, Stat::Min, Stat::Max, Stat::IsSorted, Stat::IsStrictSorted, Stat::RunCount] {
            let _ = a.statistics().compute(s);
        }
        Ok::<(), String>(())
    });
}

fn cmp_fams(full: bool) -> Vec<(String, Vec<Fam>)> {
    // families that agree up to nullability, paired [non-null, nullable]
    let mut m: std::collections::BTreeMap<String, Vec<Fam>> = Default::default();
    for f in all_fams(full) {
        if matches!(f.dtype, DType::Null | DType::Struct(..)) {
            continue; // arrow defines no comparison of these: refused with an error
        }
        let k = format!("{}/{}{:?}", f.name, f.dtype.as_nonnullable(), f.alpha);
        m.entry(k).or_default().push(f);
    }
    m.into_iter().collect()
}

pub fn c06(ctx: &Ctx) {
    let hi = if ctx.thorough { 3 } else { 2 };
    ctx.bound(format!("every pair of columns of equal length 0..={hi} of every type and nullability, in every pair of encodings, with cold and warm statistics, six operators"));
    let fams = cmp_fams(ctx.thorough);
    // (left columns, right columns) by length
    let mut work: Vec<(Col, Vec<Col>)> = vec![];
    for (_, fs) in &fams {
        for l in fs {
            for n in 0..=hi {
                let mut lf = l.clone();
                if n >= 3 {
                    lf.alpha.truncate(2);
                }
                for lc in small_cols(&lf, n, n) {
                    let mut rs = vec![];
                    for r in fs {
                        let mut rf = r.clone();
                        if n >= 3 {
                            rf.alpha.truncate(2);
                        }
                        rs.extend(small_cols(&rf, n, n));
                    }
                    work.push((lc, rs));
                }
            }
        }
    }
    let rich = if ctx.thorough { Rich::More } else { Rich::Core };
    work.into_par_iter().for_each(|(lc, rs)| {
        let ls: Vec<(String, Array)> = with_const(&lc, encodings(&lc, rich));
        for rc in rs {
            let rr = with_const(&rc, encodings(&rc, rich));
            for (ln, la) in &ls {
                ctx.state();
                ctx.tag(&base_enc(ln));
                for (rn, ra) in &rr {
                    for op in OPS {
                        ctx.check(
                            || format!("compare|{ln},{rn}|{} {op} {}", lc.desc(), rc.desc()),
                            || check_compare(la, ra, &lc, &rc, op),
                        );
                    }
                }
            }
            ctx.sample(|| format!("{} vs {}", lc.desc(), rc.desc()));
        }
    });

    // one column against a constant from a wider alphabet, after preludes, cold and warm
    ctx.bound("every column of length 1..=3 after every prelude against constants inside and outside its alphabet, both sides, constant arrays and arrays with a known-constant statistic");
    let extra = |d: &DType| -> Vec<V> {
        match d {
            DType::Primitive(p, _) if p.is_int() => {
                [imin(*p), -2, -1, 0, 1, 2, 3, 5, 99, 101, 127, imax(*p) - 1, imax(*p)].iter().filter(|x| **x >= imin(*p) && **x <= imax(*p)).map(|x| V::of_int(*p, *x)).collect()
            }
            DType::Primitive(PType::F64, _) => {
                [0.1, 0.2, -0.0, 0.0, 1.05, -1.5, 1e300, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 3.2500000001].iter().map(|x| V::f64(*x)).collect()
            }
            DType::Primitive(PType::F32, _) => [0.1f32, 0.2, -0.0, 0.0, 1.05, f32::NAN, f32::MAX, f32::NEG_INFINITY].iter().map(|x| V::f32(*x)).collect(),
            DType::Primitive(PType::F16, _) => [0.1f32, -0.0, 0.0, f32::NAN, f32::INFINITY].iter().map(|x| V::f16(half::f16::from_f32(*x))).collect(),
            DType::Bool(_) => vec![V::B(true), V::B(false)],
            DType::Utf8(_) => ["", "a", "ab", "abc", "abcdefghijkl", "abcdefghijklmnop", "abcdefghijklmnopq", "b"].iter().map(|s| V::s(s)).collect(),
            DType::Binary(_) => vec![V::S(vec![]), V::S(vec![0]), V::S(vec![0, 0]), V::S(vec![255; 14]), V::S(vec![255; 13])],
            DType::Extension(..) => vec![],
            _ => vec![],
        }
    };
    let mut cols = vec![];
    for (_, fs) in &fams {
        for f in fs {
            for n in 1..=3 {
                let mut f = f.clone();
                if n == 3 && !ctx.thorough {
                    f.alpha.truncate(2);
                }
                cols.extend(small_cols(&f, n, n));
            }
        }
    }
    explore(ctx, cols, Rich::Full, |s| {
        let mut consts = extra(&s.col.dtype);
        if let DType::Extension(..) = &s.col.dtype {
            consts = s.col.vals.iter().filter(|v| !v.is_null()).cloned().collect();
            consts.dedup();
        }
        consts.push(V::Null);
        let n0 = s.col.len();
        let pres: Vec<Vec<Op>> = preludes(n0).into_iter().filter(|p| p.is_empty() || p.len() > 1 || p[0] == Op::Slice(1, n0) || matches!(p[0], Op::Take(..))).collect();
        for pre in pres {
            let Some((a, c)) = run_ops_ok(s, &pre) else { continue };
            if c.len() == 0 {
                continue;
            }
            for k in &consts {
                let kd = if k.is_null() { c.dtype.as_nullable() } else { c.dtype.clone() };
                let kc = Col::new(kd.clone(), vec![k.clone(); c.len()]);
                let ka = ConstantArray::new(scalar_of(k, &kd), c.len()).into_array();
                let kp = plain(&kc);
                warm(&kp);
                for op in OPS {
                    let kk = |how: &str| s.key("compare_const", &format!("[{}] {op} {k:?}{how}", path(&pre)));
                    ctx.check(|| kk(""), || check_compare(&a, &ka, &c, &kc, op));
                    if pre.is_empty() || ctx.thorough {
                        ctx.check(|| kk(":left"), || check_compare(&ka, &a, &kc, &c, op));
                        ctx.check(|| kk(":warm"), || check_compare(&a, &kp, &c, &kc, op));
                    }
                }
            }
        }
    });
    // statistics of the operand known beforehand
    let mut cols = vec![];
    for (_, fs) in &fams {
        for f in fs {
            cols.extend(small_cols(f, 1, 2));
        }
    }
    explore(ctx, cols, Rich::More, |s| {
        let Ok(a2) = encodings(&s.col, Rich::Core).remove(0).1 else { return };
        warm(&s.arr);
        for k in [0, s.col.len() - 1] {
            let v = &s.col.vals[k];
            let kc = Col::new(s.col.dtype.clone(), vec![v.clone(); s.col.len()]);
            let kp = plain(&kc);
            let ka = ConstantArray::new(scalar_of(v, &s.col.dtype), s.col.len()).into_array();
            warm(&kp);
            for op in OPS {
                ctx.check(|| s.key("compare_warm", &format!("{op} {v:?}")), || check_compare(&s.arr, &ka, &s.col, &kc, op));
                ctx.check(|| s.key("compare_warm", &format!("{op} {v:?}:left")), || check_compare(&ka, &s.arr, &kc, &s.col, op));
                ctx.check(|| s.key("compare_warm", &format!("{op} {v:?}:plain")), || check_compare(&s.arr, &kp, &s.col, &kc, op));
                ctx.check(|| s.key("compare_warm", &format!("{op} self")), || check_compare(&s.arr, &a2, &s.col, &s.col, op));
            }
        }
    });
    let cols = long_subset(ctx, &[PType::U16, PType::I32, PType::F64], &[1025]);
    ctx.bound("columns of 1025 elements against block-boundary slices of themselves and constants");
    explore(ctx, cols, if ctx.thorough { Rich::Full } else { Rich::More }, |s| {
        let n = s.col.len();
        for (x, y) in [(0, n), (1, n), (1000, n)] {
            let Ok(a) = slice(&s.arr, x, y) else { continue };
            let c = s.col.slice(x, y);
            for pos in [0, c.len() - 1, 23.min(c.len() - 1)] {
                let k = &c.vals[pos];
                let kc = Col::new(c.dtype.clone(), vec![k.clone(); c.len()]);
                let ka = ConstantArray::new(scalar_of(k, &c.dtype), c.len()).into_array();
                for op in [Operator::Eq, Operator::Lt, Operator::Gte] {
                    ctx.check(|| s.key("compare_long", &format!("{x}..{y} {op} [{pos}]")), || check_compare(&a, &ka, &c, &kc, op));
                }
            }
            // against the same elements in reverse, plain
            let rc = Col::new(c.dtype.clone(), c.vals.iter().rev().cloned().collect());
            let ra = plain(&rc);
            ctx.check(|| s.key("compare_long", &format!("{x}..{y} < reverse")), || check_compare(&a, &ra, &c, &rc, Operator::Lt));
        }
    });
    ctx.bound("columns of 4100 and 66000 elements, whole and sliced, against constants and their reverse");
    explore(ctx, far_cols(&far_types(ctx, &[PType::U16, PType::I64, PType::F64]), ctx.thorough), if ctx.thorough { Rich::Full } else { Rich::More }, |s| {
        let n = s.col.len();
        for (x, y) in [(0, n), (1025, n - 1), (2500, n)] {
            let Ok(a) = slice(&s.arr, x, y) else { continue };
            let c = s.col.slice(x, y);
            for pos in [0, c.len() / 2, c.len() - 1] {
                let k = &c.vals[pos];
                let kc = Col::new(c.dtype.clone(), vec![k.clone(); c.len()]);
                let ka = ConstantArray::new(scalar_of(k, &c.dtype), c.len()).into_array();
                for op in [Operator::NotEq, Operator::Lte] {
                    ctx.check(|| s.key("compare_far", &format!("{x}..{y} {op} [{pos}]")), || check_compare(&a, &ka, &c, &kc, op));
                }
            }
            let rc = Col::new(c.dtype.clone(), c.vals.iter().rev().cloned().collect());
            let ra = plain(&rc);
            ctx.check(|| s.key("compare_far", &format!("{x}..{y} >= reverse")), || check_compare(&a, &ra, &c, &rc, Operator::Gte));
        }
    });
}

/// Encodings, plus a constant where the encoder list has none (extension types).
fn with_const(c: &Col, e: Vec<Enc>) -> Vec<(String, Array)> {
    let mut v: Vec<(String, Array)> = e.into_iter().filter_map(|(n, a)| a.ok().map(|a| (n, a))).collect();
    if c.len() > 0 && matches!(c.dtype, DType::Extension(..)) && c.vals.iter().all(|x| x == &c.vals[0]) {
        v.push(("constant".into(), ConstantArray::new(scalar_of(&c.vals[0], &c.dtype), c.len()).into_array()));
    }
    v
}

// ---------------------------------------------------------------------------------------------

pub fn c07(ctx: &Ctx) {
    let hi = if ctx.thorough { 3 } else { 2 };
    ctx.bound(format!("every pair of boolean columns of equal length 0..={hi} and nullability, every pair of encodings (sliced ones included), cold and warm statistics, and/or, both orders"));
    let mut by_len: Vec<Vec<Col>> = vec![];
    for n in 0..=hi {
        let mut v = vec![];
        for nu in [false, true] {
            v.extend(small_cols(&bool_fam(nu), n, n));
        }
        by_len.push(v);
    }
    // longer columns: word boundaries
    for n in [9usize, 65, 130] {
        let mut v = vec![];
        for nu in [false, true] {
            let d = DType::Bool(nn(nu));
            v.push(pattern(d.clone(), n, |i| V::B(i % 3 == 0), &[]));
            v.push(pattern(d.clone(), n, |i| V::B((i / 64) % 2 == 0), &[]));
            v.push(pattern(d.clone(), n, |_| V::B(true), &[]));
            v.push(pattern(d.clone(), n, |_| V::B(false), &[]));
            if nu {
                v.push(pattern(d.clone(), n, |i| V::B(i % 2 == 0), &[(0, V::Null), (8, V::Null), (n - 1, V::Null)]));
                v.push(pattern(d.clone(), n, |_| V::Null, &[]));
                v.push(pattern(d.clone(), n, |_| V::Null, &[(3, V::B(true)), (4, V::B(false))]));
            }
        }
        by_len.push(v);
    }
    // as in comparisons, a null operand makes the result null (the tests and the documentation rely on it)
    let model = |is_and: bool, x: &V, y: &V| -> V {
        match (x, y) {
            (V::B(a), V::B(b)) => V::B(if is_and { *a && *b } else { *a || *b }),
            _ => V::Null,
        }
    };
    let work: Vec<(&Col, &Vec<Col>)> = by_len.iter().flat_map(|v| v.iter().map(move |c| (c, v))).collect();
    work.into_par_iter().for_each(|(lc, rs)| {
        let ls = bool_encs(lc);
        for rc in rs {
            let rr = bool_encs(rc);
            for (ln, la) in &ls {
                ctx.state();
                ctx.tag(&base_enc(ln));
                for (rn, ra) in &rr {
                    for is_and in [true, false] {
                        ctx.check(
                            || format!("{}|{ln},{rn}|{} {}", if is_and { "and" } else { "or" }, lc.desc(), rc.desc()),
                            || {
                                let r = es(if is_and { and(la, ra) } else { or(la, ra) })?;
                                let want: Vec<V> = lc.vals.iter().zip(&rc.vals).map(|(x, y)| model(is_and, x, y)).collect();
                                match diff_vals(&bools(&r, lc.len())?, &want) {
                                    Some(d) => Err(d),
                                    None => Ok(()),
                                }
                            },
                        );
                    }
                }
            }
            ctx.sample(|| format!("{} & {}", lc.desc(), rc.desc()));
        }
    });
    // different lengths and non-boolean operands are refused
    for n in 0..3usize {
        for m in 0..3usize {
            if n != m {
                for (ln, la) in bool_encs(&bool_col(&vec![true; n])) {
                    let ra = plain(&bool_col(&vec![true; m]));
                    ctx.check(
                        || format!("lengths|{ln}|{n},{m}"),
                        || if es(and(&la, &ra)).is_ok() || es(or(&ra, &la)).is_ok() { Err("operands of different length accepted".into()) } else { Ok(()) },
                    );
                }
            }
        }
    }
}

fn bool_encs(c: &Col) -> Vec<(String, Array)> {
    let mut v: Vec<(String, Array)> = encodings(c, Rich::Full).into_iter().filter_map(|(n, a)| a.ok().map(|a| (n, a))).collect();
    let n = c.len();
    // the same columns with everything the statistics can tell already computed
    let w: Vec<(String, Array)> = encodings(c, Rich::Core)
        .into_iter()
        .filter_map(|(n, a)| a.ok().map(|a| (format!("{n}(warm)"), a)))
        .collect();
    for (_, a) in &w {
        warm(a);
    }
    v.extend(w);
    // slices of longer arrays of each encoding
    let mut big = vec![V::B(true), V::B(false), V::B(true)];
    big.extend(c.vals.iter().cloned());
    big.extend([V::B(false), V::B(true)]);
    for (nm, a) in encodings(&Col::new(c.dtype.clone(), big), Rich::Core) {
        if let Ok(a) = a {
            if let Ok(Ok(a)) = crate::report::guard(|| slice(&a, 3, 3 + n)) {
                if attempt(|| same(&a, c)).is_ok() {
                    v.push((format!("sliced<{nm}>"), a));
                }
            }
        }
    }
    // results of comparisons
    let k = Col::new(DType::Primitive(PType::U8, c.dtype.nullability()), c.vals.iter().map(|v| if let V::B(b) = v { V::of_int(PType::U8, *b as i128) } else { V::Null }).collect());
    if let Ok(Ok(a)) = crate::report::guard(|| compare(plain(&k), ConstantArray::new(1u8, n), Operator::Eq)) {
        if bools(&a, n).is_ok_and(|g| g == c.vals) {
            v.push(("compared".into(), a));
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------

fn sorted_cols(f: &Fam, lo: usize, hi: usize) -> Vec<Col> {
    let mut a = f.alpha.clone();
    a.sort_by(tcmp);
    if f.dtype.is_nullable() {
        a.push(V::Null);
    }
    // all non-decreasing sequences over the alphabet (null last)
    fn rec(a: &[V], from: usize, n: usize, cur: &mut Vec<V>, out: &mut Vec<Vec<V>>) {
        if n == 0 {
            out.push(cur.clone());
            return;
        }
        for i in from..a.len() {
            cur.push(a[i].clone());
            rec(a, i, n - 1, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    for n in lo..=hi {
        rec(&a, 0, n, &mut vec![], &mut out);
    }
    out.into_iter().map(|v| Col::new(f.dtype.clone(), v)).collect()
}

pub fn lower(c: &Col, t: &V) -> usize {
    c.vals.iter().take_while(|v| !v.is_null() && tcmp(v, t).is_lt()).count()
}
pub fn upper(c: &Col, t: &V) -> usize {
    c.vals.iter().take_while(|v| !v.is_null() && tcmp(v, t).is_le()).count()
}
fn expect(c: &Col, t: &V, side: SearchSortedSide) -> SearchResult {
    let (l, u) = (lower(c, t), upper(c, t));
    if l == u {
        SearchResult::NotFound(l)
    } else {
        SearchResult::Found(match side {
            SearchSortedSide::Left => l,
            SearchSortedSide::Right => u,
        })
    }
}
const SIDES: [SearchSortedSide; 2] = [SearchSortedSide::Left, SearchSortedSide::Right];

pub fn check_search(ctx: &Ctx, s: &Subject, pre: &str, a: &Array, c: &Col, targets: &[V]) {
    let n = c.dtype.as_nonnullable();
    for t in targets {
        for side in SIDES {
            let want = expect(c, t, side);
            let cmp = |got: SearchResult| if got == want { Ok(()) } else { Err(format!("result is {got} instead of {want}")) };
            ctx.check(
                || s.key("search_sorted", &format!("[{pre}] {t:?} {side}")),
                || cmp(es(search_sorted(a, scalar_of(t, &n), side))?),
            );
            if let (Some(x), DType::Primitive(p, _)) = (t.int(), &c.dtype) {
                if x >= 0 && p.is_int() {
                    ctx.check(
                        || s.key("search_sorted_u64", &format!("[{pre}] {t:?} {side}")),
                        || cmp(es(search_sorted_u64(a, x as u64, side))?),
                    );
                }
            }
        }
    }
    let many: Vec<(Scalar, SearchSortedSide, SearchResult)> =
        targets.iter().flat_map(|t| SIDES.map(|sd| (scalar_of(t, &n), sd, expect(c, t, sd)))).collect();
    let want: Vec<SearchResult> = many.iter().map(|m| m.2).collect();
    let lst = |v: &[SearchResult]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",");
    ctx.check(
        || s.key("search_sorted_many", &format!("[{pre}]")),
        || {
            let got = es(search_sorted_many(a, &many.iter().map(|m| m.0.clone()).collect::<Vec<_>>(), &many.iter().map(|m| m.1).collect::<Vec<_>>()))?;
            if got == want { Ok(()) } else { Err(format!("result is {} instead of {}", lst(&got), lst(&want))) }
        },
    );
    if let DType::Primitive(p, _) = &c.dtype {
        if p.is_int() {
            let us: Vec<(u64, SearchSortedSide, SearchResult)> = targets
                .iter()
                .filter(|t| t.int().unwrap() >= 0)
                .flat_map(|t| SIDES.map(|sd| (t.int().unwrap() as u64, sd, expect(c, t, sd))))
                .chain(if p.bit_width() < 64 || p.is_signed_int() {
                    // beyond the type: past everything that is not null, or past everything
                    vec![(u64::MAX, SearchSortedSide::Left, SearchResult::NotFound(c.vals.iter().filter(|v| !v.is_null()).count()))]
                } else {
                    vec![]
                })
                .collect();
            let want: Vec<SearchResult> = us.iter().map(|m| m.2).collect();
            ctx.check(
                || s.key("search_sorted_u64_many", &format!("[{pre}]")),
                || {
                    let got = es(search_sorted_u64_many(a, &us.iter().map(|m| m.0).collect::<Vec<_>>(), &us.iter().map(|m| m.1).collect::<Vec<_>>()))?;
                    if got == want { Ok(()) } else { Err(format!("result is {} instead of {}", lst(&got), lst(&want))) }
                },
            );
        }
    }
}

pub fn c08(ctx: &Ctx) {
    let hi = if ctx.thorough { 6 } else { 4 };
    ctx.bound(format!("every sorted column (nulls last) of length 0..={hi} over every alphabet, every encoding, every slice, every target in and between the elements, both sides, single/batched/unsigned"));
    let mut cols = vec![];
    for f in all_fams(true) {
        if matches!(f.dtype, DType::Null | DType::Struct(..) | DType::Extension(..)) {
            continue;
        }
        cols.extend(sorted_cols(&f, 0, hi));
    }
    let targets_of = |c: &Col| -> Vec<V> {
        let mut t: Vec<V> = match &c.dtype {
            DType::Primitive(p, _) if p.is_int() => {
                let mut t: Vec<i128> = c.vals.iter().filter_map(|v| v.int()).flat_map(|x| [x - 1, x, x + 1]).collect();
                t.extend([0, 7, 8, imin(*p), imax(*p)]);
                t.retain(|x| *x >= imin(*p) && *x <= imax(*p));
                t.into_iter().map(|x| V::of_int(*p, x)).collect()
            }
            DType::Primitive(PType::F64, _) => [f64::NEG_INFINITY, -1.5, -0.0, 0.0, 0.1, 0.2, 3.25, 1e300, f64::INFINITY].iter().map(|x| V::f64(*x)).collect(),
            DType::Primitive(PType::F32, _) => [f32::NEG_INFINITY, -1.5, -0.0, 0.0, 0.1, 0.2, f32::MAX, f32::INFINITY].iter().map(|x| V::f32(*x)).collect(),
            DType::Primitive(PType::F16, _) => [f32::NEG_INFINITY, -1.5, -0.0, 0.0, 3.25, 4.0, f32::INFINITY].iter().map(|x| V::f16(half::f16::from_f32(*x))).collect(),
            DType::Bool(_) => vec![V::B(false), V::B(true)],
            DType::Utf8(_) => ["", "a", "ab", "abcdefghijkl", "abcdefghijklm", "abcdefghijklmnop", "abcdefghijklmnoq", "zz"].iter().map(|s| V::s(s)).collect(),
            DType::Binary(_) => vec![V::S(vec![]), V::S(vec![0]), V::S(vec![1]), V::S(vec![255; 14]), V::S(vec![255; 15])],
            _ => vec![],
        };
        t.sort_by(tcmp);
        t.dedup();
        t
    };
    // NaN has no place in an order users can rely on; -0.0 and 0.0 compare equal natively
    cols.retain(|c| !c.vals.iter().any(|v| v.is_nan()));
    let zero_amb = |c: &Col, t: &V| -> bool {
        let z = |v: &V| v.float().is_some_and(|f| f == 0.0);
        z(t) && c.vals.iter().any(|v| z(v) && v != t)
    };
    let run = |s: &Subject, a: &Array, c: &Col, pre: &str| {
        let ts: Vec<V> = targets_of(c).into_iter().filter(|t| !zero_amb(c, t)).collect();
        check_search(ctx, s, pre, a, c, &ts);
    };
    explore(ctx, cols, Rich::Full, |s| {
        // searching needs the array as it is and after slicing
        let n = s.col.len();
        for pre in preludes(n) {
            if pre.iter().any(|o| matches!(o, Op::Take(..))) {
                continue;
            }
            if let Some((a, c)) = run_ops_ok(s, &pre) {
                run(s, &a, &c, &path(&pre));
            }
        }
    });
    // long sorted columns
    ctx.bound("sorted columns of 1025..3000 elements with duplicates, large last values (patches) and null tails, sliced at block boundaries; every value and its neighbours at block boundaries as target");
    let mut cols = vec![];
    let lens: &[usize] = if ctx.thorough { &[1024, 1025, 2049, 3000] } else { &[1025, 2049] };
    for p in INTS {
        if !ctx.thorough && !matches!(p, PType::U16 | PType::U32 | PType::I64 | PType::U64) {
            continue;
        }
        for &n in lens {
            for nu in [false, true] {
                let m = imax(p);
                let bases: Vec<Box<dyn Fn(usize) -> i128>> = vec![
                    Box::new(move |i| (i as i128 * 2).min(m)),
                    Box::new(move |i| (i as i128 / 40).min(m)),
                    Box::new(move |i| if i + 3 >= n { m - (n - 1 - i) as i128 / 2 } else { (i as i128 / 100) * 4 }),
                    Box::new(move |i| if i < n / 2 { 4 } else { 8 }),
                    Box::new(move |i| if i >= 1023 { m - 1 } else { 1 }),
                ];
                for b in &bases {
                    let v: Vec<V> = (0..n).map(|i| V::of_int(p, b(i))).collect();
                    if nu {
                        for k in [1usize, 2, n - 1024 + 1, n - 1] {
                            let mut w = v.clone();
                            for x in w.iter_mut().skip(n - k) {
                                *x = V::Null;
                            }
                            cols.push(Col::new(prim(p, true), w));
                        }
                    }
                    cols.push(Col::new(prim(p, nu), v));
                }
            }
        }
    }
    explore(ctx, cols, Rich::Full, |s| {
        let n = s.col.len();
        for (x, y) in [(0, n), (1, n), (1000, n), (1024, n), (0, 1024), (5, 1023), (1023, n - 1), (n - 2, n), (n, n)] {
            let Ok(Ok(a)) = crate::report::guard(|| slice(&s.arr, x, y)) else { continue };
            let c = s.col.slice(x, y);
            let DType::Primitive(p, _) = &c.dtype else { continue };
            let mut t: Vec<i128> = hot(c.len()).into_iter().filter(|i| *i < c.len()).filter_map(|i| c.vals[i].int()).flat_map(|v| [v - 1, v, v + 1]).collect();
            t.extend([imin(*p), 0, 5, imax(*p)]);
            t.retain(|v| *v >= imin(*p) && *v <= imax(*p));
            t.sort();
            t.dedup();
            let ts: Vec<V> = t.into_iter().map(|v| V::of_int(*p, v)).collect();
            check_search(ctx, s, &format!("s{x}..{y}"), &a, &c, &ts);
        }
    });
    ctx.bound("sorted columns of 4100 and 66000 elements: multiples of a high power of two, dense values, long tails of exceptions and nulls, strings; whole and sliced in all blocks");
    let mut cols = vec![];
    for p in far_types(ctx, &[PType::U16, PType::I32, PType::U64]) {
        if p.is_float() {
            continue;
        }
        let m = imax(p);
        let k = p.bit_width() as i128 / 2 + 1;
        for n in [4100usize, 66_000] {
            if n > 60_000 && (p.bit_width() < 32 || (!ctx.thorough && p != PType::I32)) {
                continue;
            }
            let bases: Vec<Box<dyn Fn(usize) -> i128>> = vec![
                Box::new(move |i| (((i as i128 / 900) + 1) << k).min((m >> k) << k)),
                Box::new(move |i| (i as i128 * 5).min(m)),
                Box::new(move |i| if i < 2100 { i as i128 / 600 } else { m - (n - 1 - i) as i128 / 2 }.max(0)),
            ];
            for b in &bases {
                let v: Vec<V> = (0..n).map(|i| V::of_int(p, b(i))).collect();
                if v.windows(2).any(|w| tcmp(&w[0], &w[1]).is_gt()) {
                    continue;
                }
                cols.push(Col::new(prim(p, false), v.clone()));
                for nulls in [100usize, 2500] {
                    let mut w = v.clone();
                    w[n - nulls..].fill(V::Null);
                    cols.push(Col::new(prim(p, true), w));
                }
            }
        }
    }
    for nu in [false, true] {
        let v: Vec<V> = (0..4100).map(|i| if nu && i > 2300 { V::Null } else { V::S(format!("{:04}{}", i / 3, "x".repeat(i % 20 / 10 * 9 + i % 3)).into_bytes()) }).collect();
        if v.windows(2).all(|w| w[1].is_null() || tcmp(&w[0], &w[1]).is_le()) {
            cols.push(Col::new(DType::Utf8(nn(nu)), v));
        } else {
            let v: Vec<V> = (0..4100).map(|i| if nu && i > 2300 { V::Null } else { V::S(format!("{:04}{}", i / 3, if i / 3 % 2 == 0 { "a longer string" } else { "" }).into_bytes()) }).collect();
            cols.push(Col::new(DType::Utf8(nn(nu)), v));
        }
    }
    explore(ctx, cols, if ctx.thorough { Rich::Full } else { Rich::More }, |s| {
        let n = s.col.len();
        for (x, y) in [(0, n), (1025, n - 1), (2500, n), (n - 1100, n - 1), (2047, 2049)] {
            let Ok(Ok(a)) = crate::report::guard(|| slice(&s.arr, x, y)) else { continue };
            let c = s.col.slice(x, y);
            let at: Vec<usize> = far_at(c.len()).into_iter().chain([2099, 2100, 2101].into_iter().filter(|i| *i < c.len())).collect();
            let mut ts: Vec<V> = match &c.dtype {
                DType::Primitive(p, _) => {
                    let mut t: Vec<i128> = at.iter().filter_map(|i| c.vals[*i].int()).flat_map(|v| [v - 1, v, v + 1]).collect();
                    t.extend([imin(*p), 0, 5, imax(*p)]);
                    t.retain(|v| *v >= imin(*p) && *v <= imax(*p));
                    t.into_iter().map(|v| V::of_int(*p, v)).collect()
                }
                _ => at.iter().filter(|i| !c.vals[**i].is_null()).map(|i| c.vals[*i].clone()).chain([V::s(""), V::s("0500b"), V::s("zz")]).collect(),
            };
            ts.sort_by(tcmp);
            ts.dedup();
            check_search(ctx, s, &format!("s{x}..{y}"), &a, &c, &ts);
        }
    });
}
