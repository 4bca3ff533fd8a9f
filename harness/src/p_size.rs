//! C23: encoded sizes.

use crate::codec::Stream;
use crate::drive::*;
use crate::engine::{Info, Src};
use crate::gen::*;
use crate::model::*;
use crate::p_file::{describe, refs, stripes_label};
use crate::reader::*;
use crate::rle::*;

type R = Result<(), String>;

fn varint_len(v: u128) -> u64 {
    ((128 - v.leading_zeros()).max(1) as u64 + 6) / 7
}

fn enc_len(v: i64, signed: bool) -> u64 {
    if signed {
        varint_len((((v << 1) ^ (v >> 63)) as u64) as u128)
    } else {
        varint_len(v as u64 as u128)
    }
}

fn le(got: u64, bound: u64, what: &str) -> R {
    if got <= bound {
        Ok(())
    } else {
        Err(format!("{} bytes, at most {} are needed for {}", got, bound, what))
    }
}

/// Maximal stretches of at least three values with a constant difference that `step` accepts.
fn runs(v: &[i64], step: impl Fn(i64, i64) -> Option<i64>) -> Vec<(usize, usize)> {
    let mut out = Vec::new();
    let mut i = 0;
    while i + 2 < v.len() {
        match step(v[i], v[i + 1]) {
            Some(d) if step(v[i + 1], v[i + 2]) == Some(d) => {
                let mut j = i + 2;
                while j + 1 < v.len() && step(v[j], v[j + 1]) == Some(d) {
                    j += 1;
                }
                out.push((i, j + 1));
                i = j;
            }
            _ => i += 1,
        }
    }
    out
}

/// Bounds for a run-length encoded stream holding `v`; `len` gives the literal size of a value,
/// `head` the bytes of a run before its base value.
fn rle_bounds(size: u64, v: &[i64], len: &dyn Fn(i64) -> u64, head: u64, plain: &[(usize, usize)], any: u64) -> R {
    let n = v.len() as u64;
    let lits: u64 = v.iter().map(|x| len(*x)).sum();
    // (a) never larger than the literals plus one control byte per group
    le(size, lits + n / 128 + 2 * any + n / 130 + 2, &format!("{} values of {} literal bytes with {} runs", n, lits, any))?;
    // (b) runs are found
    let mut covered = 0u64;
    let mut done = 0;
    let mut cost = 0;
    for &(a, b) in plain {
        let l = (b - a) as u64;
        let mv = v[a..b].iter().map(|x| len(*x)).max().unwrap();
        cost += (l / 130 + 2) * (head + mv) + 3 * mv;
        covered += v[a.max(done)..b].iter().map(|x| len(*x)).sum::<u64>();
        done = b;
    }
    le(size, lits - covered + cost + n / 128 + 2 + any, &format!("{} values, {} literal bytes outside {} runs", n, lits - covered, plain.len()))
}

fn ints(data: &[u8], n: u64, signed: bool, info: &mut Info) -> R {
    let mut r = IntRle::new(data, signed);
    let mut v = Vec::with_capacity(n as usize);
    for _ in 0..n {
        v.push(r.next()?);
    }
    if !r.at_end() {
        return Err("values left over".into());
    }
    let exact = |a: i64, b: i64| -> Option<i64> {
        let d = if signed { b as i128 - a as i128 } else { b as u64 as i128 - a as u64 as i128 };
        if (-128..=127).contains(&d) {
            Some(d as i64)
        } else {
            None
        }
    };
    let wrap = |a: i64, b: i64| Some(b.wrapping_sub(a)).filter(|d| (-128..=127).contains(d));
    let plain = runs(&v, exact);
    let any = runs(&v, wrap).len() as u64;
    info.label_if(plain.iter().any(|r| r.1 - r.0 > 130), "integer run over 130 values");
    info.label_if(plain.len() > 1, "several integer runs");
    rle_bounds(data.len() as u64, &v, &|x| enc_len(x, signed), 2, &plain, any)
}

fn bytes(data: &[u8], n: u64, info: &mut Info) -> R {
    let mut r = ByteRle::new(data);
    let mut v = Vec::with_capacity(n as usize);
    for _ in 0..n {
        v.push(r.next()? as i64);
    }
    if !r.at_end() {
        return Err("values left over".into());
    }
    let plain = runs(&v, |a, b| if a == b { Some(0) } else { None });
    info.label_if(plain.iter().any(|r| r.1 - r.0 > 130), "byte run over 130 values");
    info.label_if(plain.len() > 1, "several byte runs");
    let any = plain.len() as u64;
    rle_bounds(data.len() as u64, &v, &|_| 1, 1, &plain, any)
}

fn exact(got: usize, want: usize) -> R {
    if got == want {
        Ok(())
    } else {
        Err(format!("{} bytes, should be {}", got, want))
    }
}

fn chunked(s: &Stream, block: u64, what: &str) -> R {
    if !s.compressed {
        return exact(s.stored_len, s.data.len()).map_err(|e| format!("{}: {}", what, e));
    }
    let n = s.data.len() as u64;
    le(s.stored_len as u64, n + 3 * ((n + block - 1) / block), &format!("{} bytes in blocks of {}", n, block)).map_err(|e| format!("{}: {}", what, e))
}

/// Run-heavy values for a single column.
fn run_case(s: &mut Src) -> Case {
    let ty = s.pick(&[Ty::Long, Ty::Bool, Ty::Date, Ty::Ts, Ty::Str, Ty::List(Box::new(Ty::Short)), Ty::Union(vec![Ty::Bool, Ty::Bool, Ty::Bool])]).clone();
    let total = match s.below(4) {
        0 => 300,
        1 => 1500,
        2 => 4000,
        _ => 12000,
    };
    let (lo, hi) = match ty {
        Ty::Str | Ty::List(_) => (0, 3),
        Ty::Date => (i32::MIN as i64, i32::MAX as i64),
        Ty::Ts => (TS_LO, TS_HI),
        _ => (i64::MIN, i64::MAX),
    };
    let mut rows = Vec::new();
    let nulls = s.chance(1, 5);
    while rows.len() < total {
        let n = match s.weighted(&[4, 3, 2, 2]) {
            0 => s.us(1, 6),
            1 => s.us(126, 134),
            2 => s.us(250, 400),
            _ => s.us(1, 3000),
        };
        let run = s.chance(2, 3);
        let mut x = gen_int(s, lo, hi);
        let d = match s.below(4) {
            0 => 0i64,
            1 => s.range(0, 255) as i64 - 128,
            2 => *s.pick(&[127i64, -128, 1, -1]),
            _ => 0,
        };
        let b0 = s.below(256);
        if nulls && s.chance(1, 4) {
            rows.extend((0..n).map(|_| Val::Null));
            continue;
        }
        for i in 0..n {
            let v = match &ty {
                Ty::Bool => Val::Bool(if run { b0 >> (7 - i % 8) & 1 == 1 } else { s.chance(1, 2) }),
                Ty::Str => Val::Str("abcdefgh"[..(x as usize)].to_string()),
                Ty::List(_) => Val::List((0..x).map(|k| Val::Int(k)).collect()),
                Ty::Union(_) => Val::Union(if run { b0 as usize % 3 } else { s.below(3) as usize }, Box::new(Val::Bool(i % 2 == 0))),
                Ty::Ts => Val::Ts(x, if run { (b0 * 1000) as u32 } else { gen_nanos(s) }),
                _ => Val::Int(x),
            };
            rows.push(v);
            if run {
                if x.checked_add(d).map_or(false, |y| y >= lo && y <= hi) {
                    x += d;
                }
            } else {
                x = gen_int(s, lo, hi);
            }
        }
    }
    let comp = match s.below(3) {
        0 => gen_comp(s),
        _ => Comp::None,
    };
    let cfg = Cfg { stride: gen_stride(s), comp, stripe: if s.chance(1, 4) { gen_stripe(s) } else { None } };
    let co = limit_for(&cfg, CaseOpts { max_vals: 20000, ..Default::default() });
    rows.truncate(co.max_vals as usize);
    let k = s.us(0, rows.len());
    let second = rows.split_off(k);
    Case { ty, cfg, batches: vec![rows, second] }
}

pub fn c23(s: &mut Src, info: &mut Info) -> R {
    let c = if s.chance(1, 3) {
        info.label("run-heavy column");
        run_case(s)
    } else {
        gen_case(s, SchemaOpts::default(), CaseOpts { max_vals: 6000, ..Default::default() })
    };
    describe(&c, info);
    let out = file_how(&c, &gen_how(s))?;
    let f = OrcFile::parse(&out)?;
    stripes_label(&f, info);
    let block = c.cfg.comp.block().max(1) as u64;
    chunked(&f.footer_stream, block, "footer")?;
    chunked(&f.meta_stream, block, "metadata")?;
    let all = c.all_rows();
    let parts = f.split_rows(&refs(&all))?;
    for (i, st) in f.stripes.iter().enumerate() {
        chunked(&st.footer_stream, block, &format!("footer of stripe {}", i))?;
        let cols = flatten(&c.ty, &parts[i]);
        for (&(col, kind), x) in &st.streams {
            let fc = cols.get(col as usize).ok_or_else(|| format!("stream of column {}", col))?;
            let what = format!("stripe {} column {} ({}) stream kind {}", i, col, fc.ty.render(), kind);
            chunked(x, block, &what)?;
            let n = fc.vals.len() as u64;
            let vals: Vec<&&Val> = fc.vals.iter().filter(|v| !v.is_null()).collect();
            let m = vals.len() as u64;
            let d = &x.data[..];
            let r = match (kind, fc.ty) {
                (PRESENT, _) => bytes(d, (n + 7) / 8, info),
                (LENGTH, _) => ints(d, m, false, info),
                (SECONDARY, Ty::Ts) => ints(d, m, false, info),
                (SECONDARY, _) => ints(d, m, true, info),
                (DATA, Ty::Bool) => bytes(d, (m + 7) / 8, info),
                (DATA, Ty::Union(_)) => bytes(d, m, info),
                (DATA, Ty::Short | Ty::Int | Ty::Long | Ty::Date | Ty::Ts) => ints(d, m, true, info),
                (DATA, Ty::Float) => exact(d.len(), 4 * m as usize),
                (DATA, Ty::Double) => exact(d.len(), 8 * m as usize),
                (DATA, Ty::Dec(..)) => exact(
                    d.len(),
                    vals.iter().map(|v| if let Val::Dec(x) = v { varint_len(((x << 1) ^ (x >> 127)) as u128) as usize } else { 0 }).sum(),
                ),
                (DATA, _) => exact(
                    d.len(),
                    vals.iter()
                        .map(|v| match v {
                            Val::Str(s) => s.len(),
                            Val::Bin(b) => b.len(),
                            _ => 0,
                        })
                        .sum(),
                ),
                _ => Ok(()),
            };
            r.map_err(|e| format!("{}: {}", what, e))?;
        }
    }
    Ok(())
}
