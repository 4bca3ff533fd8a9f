//! Histories beyond 32-bit sizes and counts. Each is one fixed case of its property.

use crate::engine::*;
use crate::model::*;
use crate::pb::*;
use orc_format::schema::{Field, Schema};
use orc_format::writer::{Config, Writer};
use std::io::{self, Write};

/// The first choice of a property with fixed cases; this value stands for the first of them.
pub const FIXED: u64 = (1 << 30) - 1;

pub fn fixed(s: &mut Src) -> Option<u64> {
    FIXED.checked_sub(s.below(FIXED + 1)).filter(|n| *n < 8)
}

type R = Result<(), String>;

/// Keeps the number of bytes, the last ones, and those that came in small pieces.
struct Tail {
    total: u64,
    last: Vec<u8>,
    /// Small writes and where they went.
    small: Vec<(u64, Vec<u8>)>,
    kept: usize,
}

const KEEP: usize = 1 << 20;

impl Write for Tail {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.len() < 1 << 16 && self.kept < 16 << 20 {
            self.small.push((self.total, b.to_vec()));
            self.kept += b.len();
        }
        self.total += b.len() as u64;
        if b.len() >= KEEP {
            self.last.clear();
            self.last.extend_from_slice(&b[b.len() - KEEP..]);
        } else {
            self.last.extend_from_slice(b);
            if self.last.len() > 3 * KEEP {
                let n = self.last.len() - KEEP;
                self.last.drain(..n);
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl Tail {
    /// The bytes from one position to another, if they were kept.
    fn range(&self, from: u64, to: u64) -> Option<Vec<u8>> {
        let first = self.total - self.last.len() as u64;
        if from >= first {
            return self.last.get((from - first) as usize..(to - first) as usize).map(|b| b.to_vec());
        }
        let mut out = Vec::new();
        for (at, b) in &self.small {
            let next = from + out.len() as u64;
            if *at <= next && next < at + b.len() as u64 && next < to {
                out.extend_from_slice(&b[(next - at) as usize..]);
            }
        }
        out.truncate(to.checked_sub(from)? as usize);
        (out.len() as u64 == to - from).then_some(out)
    }
    fn new() -> Tail {
        Tail { total: 0, last: Vec::new(), small: Vec::new(), kept: 0 }
    }
}

/// The footer, and where it, the metadata and the postscript start.
fn tail(t: &Tail) -> Result<(Footer, u64), String> {
    let b = &t.last;
    let n = b.len();
    let end = t.total;
    let psl = b[n - 1] as usize;
    let ps = PostScript::parse(&b[n - 1 - psl..n - 1]).map_err(|e| format!("postscript: {}", e))?;
    if ps.magic.as_deref() != Some("ORC") || ps.compression.unwrap_or(0) != 0 {
        return Err(format!("postscript {:?}", ps));
    }
    let fl = ps.footer_length.ok_or("no footerLength")?;
    let ml = ps.metadata_length.ok_or("no metadataLength")?;
    let foot = (n as u64 - 1 - psl as u64).checked_sub(fl).ok_or("footerLength too large")? as usize;
    let footer = Footer::parse(&b[foot..n - 1 - psl]).map_err(|e| format!("footer: {}", e))?;
    Ok((footer, end - 1 - psl as u64 - fl - ml))
}

/// The recorded offsets, lengths and row counts of the whole file.
fn check_tail(t: &Tail, rows: u64) -> Result<Footer, String> {
    let (f, content_end) = tail(t)?;
    let mut p = 3u64;
    for (i, s) in f.stripes.iter().enumerate() {
        if s.offset != Some(p) {
            return Err(format!("stripe {} starts at {:?}, should be {}", i, s.offset, p));
        }
        p += s.index_len.unwrap_or(0) + s.data_len.unwrap_or(0) + s.footer_len.unwrap_or(0);
    }
    if p != content_end {
        return Err(format!("the stripes end at {}, the metadata section starts at {}", p, content_end));
    }
    if f.content_length.map(|n| n + 3) != Some(p) && f.content_length != Some(p) {
        return Err(format!("contentLength {:?}, the stripes end at {}", f.content_length, p));
    }
    let got: Vec<u64> = f.stripes.iter().map(|s| s.rows.unwrap_or(0)).collect();
    if got.iter().sum::<u64>() != rows || f.rows != Some(rows) {
        return Err(format!("rows of the stripes {:?}, of the file {:?}, should be {}", got, f.rows, rows));
    }
    // Streams of the stripes whose footers are still there.
    let mut seen = 0;
    for (i, s) in f.stripes.iter().enumerate() {
        let end = s.offset.unwrap_or(0) + s.index_len.unwrap_or(0) + s.data_len.unwrap_or(0) + s.footer_len.unwrap_or(0);
        let b = match t.range(end - s.footer_len.unwrap_or(0), end) {
            Some(b) => b,
            None => continue,
        };
        seen += 1;
        let sf = StripeFooter::parse(&b).map_err(|e| format!("stripe {}: footer: {}", i, e))?;
        let sum: u64 = sf.streams.iter().map(|x| x.length).sum();
        if sum != s.index_len.unwrap_or(0) + s.data_len.unwrap_or(0) {
            return Err(format!("stripe {}: streams of {} bytes, lengths {:?} and {:?}", i, sum, s.index_len, s.data_len));
        }
    }
    if seen == 0 {
        return Err("HARNESS: no stripe footer was kept".into());
    }
    Ok(f)
}

/// Uncompressed file with a stream of more than 4 GiB, and a stripe after it.
pub fn long_file(info: &mut Info) -> R {
    info.label("more than 4 GiB");
    info.desc = "struct<k: Long, b: Binary>, uncompressed, 1030 rows of 4 MiB in one stripe, 3 rows in another".into();
    let schema = Schema::Struct(vec![Field("k".into(), Schema::Long), Field("b".into(), Schema::Binary)]);
    let blob: Vec<u8> = (0..4u32 << 20).map(|i| (i.wrapping_mul(2654435761) >> 13) as u8).collect();
    let rows = 1030u64;
    let w = guarded(|| -> io::Result<Tail> {
        let mut w = Writer::new(Tail::new(), &schema, Config::new().with_stripe_size(4_310_000_000))?;
        for i in 0..rows + 3 {
            let d = w.data().unwrap_struct();
            d.write();
            d.child(0).unwrap_long().write(i as i64 * 7);
            d.child(1).unwrap_binary().write(if i < rows { &blob } else { &blob[..10] });
            w.write_batch(1)?;
        }
        w.finish()
    });
    let t = w.map_err(|p| format!("writer panicked: {}", p))?.map_err(|e| format!("writer failed: {}", e))?;
    let f = check_tail(&t, rows + 3)?;
    if f.stripes.len() < 2 {
        return Err(format!("{} stripes", f.stripes.len()));
    }
    let sum = rows * blob.len() as u64 + 30;
    let got = f.stats.get(2).and_then(|s| s.bin).flatten();
    if got != Some(sum as i64) {
        return Err(format!("total length of the binary column {:?}, should be {}", got, sum));
    }
    Ok(())
}

/// More than 2^32 rows, of empty structs or of booleans.
pub fn many_rows(info: &mut Info, booleans: bool) -> R {
    info.label("more than 2^32 rows");
    let rows = (1u64 << 32) + 70_000;
    let schema = if booleans { Schema::Boolean } else { Schema::Struct(vec![]) };
    info.desc = format!("{}, uncompressed, stride 4294967295, {} rows in four batches", if booleans { "boolean" } else { "struct<>" }, rows);
    let w = guarded(|| -> io::Result<Tail> {
        let mut w = Writer::new(Tail::new(), &schema, Config::new().with_row_index_stride(u32::MAX))?;
        for part in [1u64 << 31, 1 << 31, 69_000, 1000] {
            if booleans {
                let d = w.data().unwrap_boolean();
                for _ in 0..part {
                    d.write(true);
                }
            } else {
                let d = w.data().unwrap_struct();
                for _ in 0..part {
                    d.write();
                }
            }
            w.write_batch(part)?;
        }
        w.finish()
    });
    let t = w.map_err(|p| format!("writer panicked: {}", p))?.map_err(|e| format!("writer failed: {}", e))?;
    let f = check_tail(&t, rows)?;
    let st = &f.stats[0];
    let count = st.bucket.as_ref().and_then(|b| b.first().copied());
    if st.values != Some(rows) || (booleans && count != Some(rows)) {
        return Err(format!("statistics {:?} for {} values, all true", st, rows));
    }
    Ok(())
}

/// More than 2^16 stripes of one row each.
pub fn many_stripes(info: &mut Info) -> Case {
    info.label("more than 2^16 stripes");
    let ty = Ty::Struct(vec![("a".into(), Ty::Long), ("b".into(), Ty::Str), ("c".into(), Ty::Bool)]);
    let batches = (0..70_000i64)
        .map(|i| {
            let s = Val::Str(format!("{:x}", i.wrapping_mul(0x9e3779b97f4a7c15u64 as i64)));
            vec![Val::Struct(vec![Val::Int(i * 7 - 1000), if i % 11 == 3 { Val::Null } else { s }, Val::Bool(i % 3 == 0)])]
        })
        .collect();
    Case { ty, cfg: Cfg { stride: Some(100), comp: Comp::None, stripe: Some(0) }, batches }
}

/// More than 2^16 columns.
pub fn many_columns(info: &mut Info) -> Case {
    info.label("more than 2^16 columns");
    let leaf = [Ty::Long, Ty::Bool, Ty::Str, Ty::Date];
    let kids: Vec<(String, Ty)> = (0..70_000usize).map(|i| (format!("c{}", i), leaf[i % 4].clone())).collect();
    let row = |k: i64| {
        Val::Struct(
            (0..70_000i64)
                .map(|i| match i % 4 {
                    _ if (i + k) % 13 == 0 => Val::Null,
                    0 => Val::Int(i * 1000 + k),
                    1 => Val::Bool((i / 4 + k) % 3 == 0),
                    2 => Val::Str(format!("{}/{}", k, i)),
                    _ => Val::Int(k - i),
                })
                .collect(),
        )
    };
    let batches = vec![vec![row(0), row(1)], vec![row(2)]];
    Case { ty: Ty::Struct(kids), cfg: Cfg { stride: Some(2), comp: Comp::None, stripe: None }, batches }
}

/// More than 2^16 row groups in one stripe, and more than 2^16 blocks in one stream.
pub fn many_groups(info: &mut Info) -> Case {
    info.label("more than 2^16 row groups");
    let ty = Ty::Struct(vec![("a".into(), Ty::Long), ("b".into(), Ty::Str), ("t".into(), Ty::Ts), ("d".into(), Ty::Double)]);
    let mut r = Rng::new(5);
    let rows = (0..70_000u64)
        .map(|i| {
            let x = r.next();
            let s = if i % 5 == 0 { String::new() } else { format!("{:08x}{:08x}", x as u32, r.next() as u32) };
            Val::Struct(vec![Val::Int(x as i64), Val::Str(s), Val::Ts((x >> 33) as i64, (x % 1_000_000_000) as u32), if i % 17 == 0 { Val::Null } else { Val::F64(i * 1001) }])
        })
        .collect();
    Case { ty, cfg: Cfg { stride: Some(1), comp: Comp::Snappy(Some(16)), stripe: Some(usize::MAX) }, batches: vec![rows] }
}

/// The fixed cases that are judged like any other case of the property.
pub fn fixed_case(s: &mut Src, info: &mut Info) -> (Option<u64>, Option<Case>) {
    let n = fixed(s);
    let c = match n {
        Some(2) => Some(many_stripes(info)),
        Some(3) => Some(many_columns(info)),
        Some(4) => Some(many_groups(info)),
        _ => None,
    };
    (n, c)
}
