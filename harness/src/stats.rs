//! Expected column statistics, computed from the values that were written.

use crate::model::*;
use crate::pb::ColStats;

const EPOCH_2015: i64 = 1_420_070_400;

/// What may be recorded for the sum of the values.
fn int_sum_ok(pos: Option<i128>, neg: Option<i128>, total: Option<i128>, lo: i128, hi: i128, got: Option<i128>) -> Result<(), String> {
    // pos / neg / total: sums of the positive, of the negative and of all values, None if even 128 bits overflow
    let safe = matches!((pos, neg), (Some(p), Some(n)) if p <= hi && n >= lo);
    match (got, total) {
        (None, _) if safe => Err(format!("sum missing, should be {}", total.unwrap())),
        (None, _) => Ok(()),
        (Some(g), Some(t)) if g == t => Ok(()),
        (Some(g), Some(t)) => Err(format!("sum {}, should be {}", g, t)),
        (Some(g), None) => Err(format!("sum {}, but the total does not fit", g)),
    }
}

/// The total, if it fits in 128 bits.
fn sum128(xs: impl Iterator<Item = i128>) -> Option<i128> {
    let (mut hi, mut lo) = (0i128, 0u128);
    for x in xs {
        hi += x >> 64;
        lo += x as u64 as u128;
    }
    hi += (lo >> 64) as i128;
    if hi >> 63 != 0 && hi >> 63 != -1 {
        return None;
    }
    Some((hi << 64) | (lo & u64::MAX as u128) as i128)
}

pub fn parse_dec(s: &str, scale: u32) -> Result<i128, String> {
    let bad = || format!("decimal text {:?}", s);
    let (neg, t) = match s.strip_prefix('-') {
        Some(t) => (true, t),
        None => (false, s),
    };
    let (a, b) = match t.split_once('.') {
        Some((a, b)) => (a, b),
        None => (t, ""),
    };
    if a.is_empty() || b.len() > scale as usize || (t.contains('.') && b.is_empty()) {
        return Err(bad());
    }
    let mut v: i128 = 0;
    for c in a.chars().chain(b.chars()).chain(std::iter::repeat('0').take(scale as usize - b.len())) {
        let d = c.to_digit(10).ok_or_else(bad)? as i128;
        v = v.checked_mul(10).and_then(|v| if neg { v.checked_sub(d) } else { v.checked_add(d) }).ok_or_else(bad)?;
    }
    Ok(v)
}

fn opt<T: PartialEq + std::fmt::Debug>(what: &str, got: &Option<T>, want: &Option<T>) -> Result<(), String> {
    if got != want {
        return Err(format!("{} {:?}, should be {:?}", what, got, want));
    }
    Ok(())
}

pub fn check_stats(ty: &Ty, vals: &[&Val], c: &ColStats) -> Result<(), String> {
    let nn: Vec<&Val> = vals.iter().copied().filter(|v| !v.is_null()).collect();
    let n = nn.len() as u64;
    if c.values != Some(n) {
        return Err(format!("numberOfValues {:?}, should be {}", c.values, n));
    }
    let has_null = nn.len() != vals.len();
    match c.has_null {
        Some(h) if h == has_null => {}
        h => return Err(format!("hasNull {:?}, should be {}", h, has_null)),
    }
    let kinds = [
        ("int", c.int.is_some()),
        ("double", c.dbl.is_some()),
        ("string", c.str.is_some()),
        ("bucket", c.bucket.is_some()),
        ("decimal", c.dec.is_some()),
        ("date", c.date.is_some()),
        ("binary", c.bin.is_some()),
        ("timestamp", c.ts.is_some()),
    ];
    let want = match ty {
        Ty::Short | Ty::Int | Ty::Long => "int",
        Ty::Date => "date",
        Ty::Float | Ty::Double => "double",
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) => "string",
        Ty::Bool => "bucket",
        Ty::Dec(..) => "decimal",
        Ty::Bin => "binary",
        Ty::Ts => "timestamp",
        _ => "",
    };
    for (k, set) in kinds {
        if set && k != want {
            return Err(format!("{} statistics on {}", k, ty.render()));
        }
        if !set && k == want && n > 0 {
            return Err(format!("no {} statistics on {}", k, ty.render()));
        }
    }
    match ty {
        Ty::Short | Ty::Int | Ty::Long | Ty::Date => {
            let xs: Vec<i64> = nn.iter().map(|v| if let Val::Int(i) = v { *i } else { unreachable!() }).collect();
            let is_date = *ty == Ty::Date;
            let s = match if is_date { &c.date } else { &c.int } {
                Some(s) => s,
                None => return Ok(()),
            };
            opt("minimum", &s.min, &xs.iter().copied().min())?;
            opt("maximum", &s.max, &xs.iter().copied().max())?;
            if !is_date {
                let pos: i128 = xs.iter().filter(|x| **x > 0).map(|x| *x as i128).sum();
                let neg: i128 = xs.iter().filter(|x| **x < 0).map(|x| *x as i128).sum();
                if n > 0 {
                    int_sum_ok(Some(pos), Some(neg), Some(pos + neg), i64::MIN as i128, i64::MAX as i128, s.sum.map(|x| x as i128))?;
                } else if s.sum.unwrap_or(0) != 0 {
                    return Err(format!("sum {:?} of no values", s.sum));
                }
            }
        }
        Ty::Float | Ty::Double => {
            let xs: Vec<f64> = nn
                .iter()
                .map(|v| match v {
                    Val::F32(b) => f32::from_bits(*b) as f64,
                    Val::F64(b) => f64::from_bits(*b),
                    _ => unreachable!(),
                })
                .collect();
            let s = match &c.dbl {
                Some(s) => s,
                None => return Ok(()),
            };
            let reals: Vec<f64> = xs.iter().copied().filter(|x| !x.is_nan()).collect();
            if reals.is_empty() {
                for m in [s.min, s.max].into_iter().flatten() {
                    if !m.is_nan() {
                        return Err(format!("minimum or maximum {:?} of no numbers", m));
                    }
                }
            } else {
                let mn = reals.iter().copied().fold(f64::INFINITY, f64::min);
                let mx = reals.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                if s.min != Some(mn) {
                    return Err(format!("minimum {:?}, should be {:?}", s.min, mn));
                }
                if s.max != Some(mx) {
                    return Err(format!("maximum {:?}, should be {:?}", s.max, mx));
                }
            }
            if reals.len() == xs.len() {
                let got = match s.sum {
                    Some(x) => x,
                    None if n == 0 => return Ok(()),
                    None => return Err("sum missing".into()),
                };
                let pinf = xs.contains(&f64::INFINITY);
                let ninf = xs.contains(&f64::NEG_INFINITY);
                let abs: f64 = xs.iter().map(|x| x.abs() / 1e16).sum();
                if pinf || ninf {
                    let ok = if pinf && ninf {
                        got.is_nan()
                    } else if abs.is_infinite() && !xs.iter().all(|x| x.is_infinite() || x.abs() < 1e290) {
                        // finite partial sums may overflow the other way first
                        got.is_nan() || got == if pinf { f64::INFINITY } else { f64::NEG_INFINITY }
                    } else {
                        got == if pinf { f64::INFINITY } else { f64::NEG_INFINITY }
                    };
                    if !ok {
                        return Err(format!("sum {:?} of values with infinities", got));
                    }
                } else if abs < 1e290 {
                    let mut r = 0.0;
                    let mut comp = 0.0;
                    for x in &xs {
                        // Neumaier summation
                        let t: f64 = r + x;
                        if f64::abs(r) >= x.abs() {
                            comp += (r - t) + x;
                        } else {
                            comp += (x - t) + r;
                        }
                        r = t;
                    }
                    let want = r + comp;
                    let tol = (xs.len() as f64 + 2.0) * 4.0 * f64::EPSILON * (abs * 1e16) + f64::MIN_POSITIVE;
                    if !((got - want).abs() <= tol) {
                        return Err(format!("sum {:?}, should be {:?} (within {:e})", got, want, tol));
                    }
                }
            }
        }
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) => {
            let xs: Vec<&str> = nn.iter().map(|v| if let Val::Str(i) = v { &i[..] } else { unreachable!() }).collect();
            let s = match &c.str {
                Some(s) => s,
                None => return Ok(()),
            };
            let mn = xs.iter().min_by_key(|x| x.as_bytes()).map(|x| x.to_string());
            let mx = xs.iter().max_by_key(|x| x.as_bytes()).map(|x| x.to_string());
            if s.min != mn {
                return Err(format!("minimum {:?}, should be {:?}", s.min.as_ref().map(|x| clip(x, 80)), mn.map(|x| clip(&x, 80))));
            }
            if s.max != mx {
                return Err(format!("maximum {:?}, should be {:?}", s.max.as_ref().map(|x| clip(x, 80)), mx.map(|x| clip(&x, 80))));
            }
            let total: i64 = xs.iter().map(|x| x.len() as i64).sum();
            if s.sum.unwrap_or(if n == 0 { 0 } else { -1 }) != total {
                return Err(format!("sum of lengths {:?}, should be {}", s.sum, total));
            }
        }
        Ty::Bin => {
            let total: i64 = nn.iter().map(|v| if let Val::Bin(i) = v { i.len() as i64 } else { unreachable!() }).sum();
            let got = c.bin.flatten();
            if got.unwrap_or(if n == 0 { 0 } else { -1 }) != total {
                return Err(format!("sum of lengths {:?}, should be {}", got, total));
            }
        }
        Ty::Bool => {
            let t = nn.iter().filter(|v| ***v == Val::Bool(true)).count() as u64;
            let b = match &c.bucket {
                Some(b) => b,
                None => return Ok(()),
            };
            if b.first().copied().unwrap_or(if n == 0 { 0 } else { u64::MAX }) != t {
                return Err(format!("true count {:?}, should be {}", b, t));
            }
            if b.len() > 1 && b[1] != n - t {
                return Err(format!("false count {:?}, should be {}", b, n - t));
            }
        }
        Ty::Dec(_, sc) => {
            let xs: Vec<i128> = nn.iter().map(|v| if let Val::Dec(i) = v { *i } else { unreachable!() }).collect();
            let s = match &c.dec {
                Some(s) => s,
                None => return Ok(()),
            };
            let p = |x: &Option<String>| x.as_ref().map(|x| parse_dec(x, *sc)).transpose();
            opt("minimum", &p(&s.min)?, &xs.iter().copied().min())?;
            opt("maximum", &p(&s.max)?, &xs.iter().copied().max())?;
            let sum = p(&s.sum)?;
            let add = |neg: bool| xs.iter().filter(|x| (**x < 0) == neg).try_fold(0i128, |a, x| a.checked_add(*x));
            if n > 0 {
                int_sum_ok(add(false), add(true), sum128(xs.iter().copied()), i128::MIN, i128::MAX, sum)?;
            } else if sum.unwrap_or(0) != 0 {
                return Err(format!("sum {:?} of no values", sum));
            }
        }
        Ty::Ts => {
            let xs: Vec<i64> = nn
                .iter()
                .map(|v| if let Val::Ts(a, b) = v { ((*a as i128 + EPOCH_2015 as i128) * 1000 + (*b / 1_000_000) as i128).clamp(i64::MIN as i128, i64::MAX as i128) as i64 } else { unreachable!() })
                .collect();
            let s = match &c.ts {
                Some(s) => s,
                None => return Ok(()),
            };
            let (mn, mx) = (xs.iter().copied().min(), xs.iter().copied().max());
            if s.min_utc.is_some() || s.max_utc.is_some() {
                opt("minimumUtc", &s.min_utc, &mn)?;
                opt("maximumUtc", &s.max_utc, &mx)?;
                if s.min.is_some() || s.max.is_some() {
                    opt("minimum", &s.min, &mn)?;
                    opt("maximum", &s.max, &mx)?;
                }
            } else {
                opt("minimum", &s.min, &mn)?;
                opt("maximum", &s.max, &mx)?;
            }
        }
        _ => {}
    }
    Ok(())
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn wide_sums() {
        let m = i128::MAX;
        assert_eq!(sum128([m, 1].into_iter()), None);
        assert_eq!(sum128([m, 1, -1].into_iter()), Some(m));
        assert_eq!(sum128([i128::MIN, -1].into_iter()), None);
        assert_eq!(sum128([i128::MIN, -1, 1].into_iter()), Some(i128::MIN));
        assert_eq!(sum128([-5, 3, 1 << 100, -(1 << 64)].into_iter()), Some((1 << 100) - (1 << 64) - 2));
        assert_eq!(sum128([m, m, m, i128::MIN, i128::MIN].into_iter()), Some(m - 2));
        assert_eq!(sum128(std::iter::empty()), Some(0));
    }
}
