//! Row index oracle: row group statistics and positions.

use crate::model::*;
use crate::pb::{parse_row_index, IndexEntry};
use crate::reader::*;
use crate::rle::*;
use crate::stats::check_stats;

/// Candidate partitions of a column's values into row groups.
///
/// By the specification the only one is by top-level rows. `nested_lenient` additionally admits
/// counting the column's own values, for columns whose values do not correspond one-to-one to rows
/// (known finding, see KNOWN_FINDINGS.txt).
fn partitions(c: &FlatCol, rows: usize, stride: u64, nested_lenient: bool) -> Vec<Vec<(usize, usize)>> {
    let st = stride.min(1 << 40) as usize;
    let mut by_rows = Vec::new();
    let mut r = 0;
    while r < rows {
        let e = (r + st).min(rows);
        by_rows.push((c.row_start[r], c.row_start[e]));
        r = e;
    }
    let mut out = vec![by_rows];
    if nested_lenient {
        let n = c.vals.len();
        let mut own = Vec::new();
        let mut r = 0;
        while r < n {
            let e = (r + st).min(n);
            own.push((r, e));
            r = e;
        }
        if own != out[0] {
            out.push(own);
        }
    }
    out
}

pub fn entries(s: &StripeRd, col: usize) -> Result<Vec<IndexEntry>, String> {
    let st = s.streams.get(&(col as u64, ROW_INDEX)).ok_or_else(|| format!("column {}: no row index", col))?;
    parse_row_index(&st.data).map_err(|e| format!("column {}: row index: {}", col, e))
}

fn for_columns(
    f: &OrcFile,
    ty: &Ty,
    rows: &[&Val],
    stride: u64,
    lenient: bool,
    mut check: impl FnMut(&StripeRd, usize, &FlatCol, &[IndexEntry], &[(usize, usize)]) -> Result<(), String>,
) -> Result<(), String> {
    let parts = f.split_rows(rows)?;
    for (i, s) in f.stripes.iter().enumerate() {
        let cols = flatten(ty, &parts[i]);
        for (id, c) in cols.iter().enumerate() {
            let es = entries(s, id).map_err(|e| format!("stripe {}: {}", i, e))?;
            let one_to_one = c.row_start.iter().enumerate().all(|(r, v)| r == *v);
            let ps = partitions(c, parts[i].len(), stride, lenient && !one_to_one);
            let mut err = None;
            let mut ok = false;
            for p in &ps {
                let r = if p.len() != es.len() {
                    Err(format!("{} row index entries, should be {}", es.len(), p.len()))
                } else {
                    check(s, id, c, &es, p)
                };
                match r {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(e) => {
                        if err.is_none() {
                            err = Some(e)
                        }
                    }
                }
            }
            if !ok {
                return Err(format!("stripe {} column {} ({}): {}", i, id, c.ty.render(), err.unwrap()));
            }
        }
    }
    Ok(())
}

pub fn check_group_stats(f: &OrcFile, ty: &Ty, rows: &[&Val], stride: u64, lenient: bool) -> Result<(), String> {
    for_columns(f, ty, rows, stride, lenient, |_, _, c, es, p| {
        for (g, (e, (a, b))) in es.iter().zip(p).enumerate() {
            let st = e.stats.as_ref().ok_or_else(|| format!("row group {}: no statistics", g))?;
            check_stats(c.ty, &c.vals[*a..*b], st).map_err(|m| format!("row group {} (values {}..{}): {}", g, a, b, m))?;
        }
        Ok(())
    })
}

struct Pos<'a> {
    p: &'a [u64],
    i: usize,
}

impl<'a> Pos<'a> {
    fn take(&mut self) -> Result<u64, String> {
        let v = *self.p.get(self.i).ok_or_else(|| format!("{} positions, more expected", self.p.len()))?;
        self.i += 1;
        Ok(v)
    }
    /// Offset in the uncompressed stream.
    fn seek(&mut self, s: &crate::codec::Stream) -> Result<usize, String> {
        let a = self.take()?;
        if s.compressed {
            let b = self.take()?;
            s.seek(a, b)
        } else if a > s.data.len() as u64 {
            Err(format!("position {} beyond the stream of {} bytes", a, s.data.len()))
        } else {
            Ok(a as usize)
        }
    }
}

fn get<'s>(s: &'s StripeRd, col: usize, kind: u64) -> Result<&'s crate::codec::Stream, String> {
    s.streams.get(&(col as u64, kind)).ok_or_else(|| format!("no stream of kind {}", kind))
}

fn seek_bits(p: &mut Pos, st: &crate::codec::Stream, want: &[bool]) -> Result<(), String> {
    let off = p.seek(st)?;
    let skip = p.take()?;
    let bits = p.take()?;
    if bits > 7 || skip > 130 {
        return Err(format!("positions skip {} bytes, {} bits", skip, bits));
    }
    let mut r = BitRle::new(&st.data[off..]);
    for _ in 0..skip {
        r.inner.next()?;
    }
    for _ in 0..bits {
        r.next()?;
    }
    for (i, w) in want.iter().enumerate() {
        let g = r.next()?;
        if g != *w {
            return Err(format!("value {} after the position is {}, should be {}", i, g, w));
        }
    }
    Ok(())
}

fn seek_bytes(p: &mut Pos, st: &crate::codec::Stream, want: &[u8]) -> Result<(), String> {
    let off = p.seek(st)?;
    let skip = p.take()?;
    if skip > 130 {
        return Err(format!("positions skip {} bytes", skip));
    }
    let mut r = ByteRle::new(&st.data[off..]);
    for _ in 0..skip {
        r.next()?;
    }
    for (i, w) in want.iter().enumerate() {
        let g = r.next()?;
        if g != *w {
            return Err(format!("value {} after the position is {}, should be {}", i, g, w));
        }
    }
    Ok(())
}

fn seek_ints(p: &mut Pos, st: &crate::codec::Stream, signed: bool, want: &[i64], map: impl Fn(i64) -> i64) -> Result<(), String> {
    let off = p.seek(st)?;
    let skip = p.take()?;
    if skip > 130 {
        return Err(format!("positions skip {} values", skip));
    }
    let mut r = IntRle::new(&st.data[off..], signed);
    for _ in 0..skip {
        r.next()?;
    }
    for (i, w) in want.iter().enumerate() {
        let g = map(r.next()?);
        if g != *w {
            return Err(format!("value {} after the position is {}, should be {}", i, g, w));
        }
    }
    Ok(())
}

fn seek_raw(p: &mut Pos, st: &crate::codec::Stream, want: &[u8]) -> Result<(), String> {
    let off = p.seek(st)?;
    if !st.data[off..].starts_with(want) {
        return Err(format!("bytes after the position (offset {}) are not those of the row group", off));
    }
    Ok(())
}

/// How many values after the row group's own are compared, too.
const BEYOND: usize = 140;

pub fn check_positions(f: &OrcFile, ty: &Ty, rows: &[&Val], stride: u64, lenient: bool) -> Result<(), String> {
    for_columns(f, ty, rows, stride, lenient, |s, id, c, es, p| {
        for (g, (e, (a, b))) in es.iter().zip(p).enumerate() {
            let end = b.saturating_add(BEYOND).min(c.vals.len());
            let vals = &c.vals[*a..end];
            let nn: Vec<&Val> = vals.iter().copied().filter(|v| !v.is_null()).collect();
            let mut pos = Pos { p: &e.positions, i: 0 };
            let mut run = || -> Result<(), String> {
                if s.streams.contains_key(&(id as u64, PRESENT)) {
                    let w: Vec<bool> = vals.iter().map(|v| !v.is_null()).collect();
                    seek_bits(&mut pos, get(s, id, PRESENT)?, &w).map_err(|m| format!("PRESENT: {}", m))?;
                }
                match c.ty {
                    Ty::Bool => {
                        let w: Vec<bool> = nn.iter().map(|v| **v == Val::Bool(true)).collect();
                        seek_bits(&mut pos, get(s, id, DATA)?, &w)?;
                    }
                    Ty::Short | Ty::Int | Ty::Long | Ty::Date => {
                        let w: Vec<i64> = nn.iter().map(|v| if let Val::Int(i) = v { *i } else { unreachable!() }).collect();
                        seek_ints(&mut pos, get(s, id, DATA)?, true, &w, |x| x)?;
                    }
                    Ty::Float => {
                        let w: Vec<u8> = nn.iter().flat_map(|v| if let Val::F32(i) = v { i.to_le_bytes() } else { unreachable!() }).collect();
                        seek_raw(&mut pos, get(s, id, DATA)?, &w)?;
                    }
                    Ty::Double => {
                        let w: Vec<u8> = nn.iter().flat_map(|v| if let Val::F64(i) = v { i.to_le_bytes() } else { unreachable!() }).collect();
                        seek_raw(&mut pos, get(s, id, DATA)?, &w)?;
                    }
                    Ty::Ts => {
                        let w: Vec<i64> = nn.iter().map(|v| if let Val::Ts(i, _) = v { *i } else { unreachable!() }).collect();
                        seek_ints(&mut pos, get(s, id, DATA)?, true, &w, |x| x).map_err(|m| format!("DATA: {}", m))?;
                        let w: Vec<i64> = nn.iter().map(|v| if let Val::Ts(_, i) = v { *i as i64 } else { unreachable!() }).collect();
                        seek_ints(&mut pos, get(s, id, SECONDARY)?, false, &w, |x| nanos(x as u64) as i64).map_err(|m| format!("SECONDARY: {}", m))?;
                    }
                    Ty::Dec(_, sc) => {
                        let st = get(s, id, DATA)?;
                        let mut o = pos.seek(st).map_err(|m| format!("DATA: {}", m))?;
                        for v in &nn {
                            let x = unzigzag128(varint128(&st.data, &mut o).map_err(|m| format!("DATA: {}", m))?);
                            if **v != Val::Dec(x) {
                                return Err(format!("DATA: read {} after the position, should be {}", x, v.render()));
                            }
                        }
                        seek_ints(&mut pos, get(s, id, SECONDARY)?, true, &vec![*sc as i64; nn.len()], |x| x).map_err(|m| format!("SECONDARY: {}", m))?;
                    }
                    Ty::Str | Ty::Char(_) | Ty::VarChar(_) | Ty::Bin => {
                        let bs: Vec<&[u8]> = nn
                            .iter()
                            .map(|v| match v {
                                Val::Str(x) => x.as_bytes(),
                                Val::Bin(x) => &x[..],
                                _ => unreachable!(),
                            })
                            .collect();
                        seek_raw(&mut pos, get(s, id, DATA)?, &bs.concat()).map_err(|m| format!("DATA: {}", m))?;
                        let w: Vec<i64> = bs.iter().map(|x| x.len() as i64).collect();
                        seek_ints(&mut pos, get(s, id, LENGTH)?, false, &w, |x| x).map_err(|m| format!("LENGTH: {}", m))?;
                    }
                    Ty::List(_) | Ty::Map(..) => {
                        let w: Vec<i64> = nn
                            .iter()
                            .map(|v| match v {
                                Val::List(x) => x.len() as i64,
                                Val::Map(x) => x.len() as i64,
                                _ => unreachable!(),
                            })
                            .collect();
                        seek_ints(&mut pos, get(s, id, LENGTH)?, false, &w, |x| x)?;
                    }
                    Ty::Union(_) => {
                        let w: Vec<u8> = nn.iter().map(|v| if let Val::Union(t, _) = v { *t as u8 } else { unreachable!() }).collect();
                        seek_bytes(&mut pos, get(s, id, DATA)?, &w)?;
                    }
                    Ty::Struct(_) => {}
                }
                if pos.i != pos.p.len() {
                    return Err(format!("{} positions recorded, {} used", pos.p.len(), pos.i));
                }
                Ok(())
            };
            run().map_err(|m| format!("row group {} at value {} (positions {:?}): {}", g, a, e.positions, m))?;
        }
        Ok(())
    })
}
