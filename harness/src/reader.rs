//! A reader for ORC files, written from the specification. It trusts only the recorded offsets and
//! lengths and reports anything it cannot follow as an error.

use crate::codec::{self, Stream};
use crate::model::*;
use crate::pb::*;
use crate::rle::*;
use std::collections::BTreeMap;

pub const PRESENT: u64 = 0;
pub const DATA: u64 = 1;
pub const LENGTH: u64 = 2;
pub const SECONDARY: u64 = 5;
pub const ROW_INDEX: u64 = 6;

/// More values than this cannot come from any generated case.
const MAX_VALUES: u64 = 30_000_000;

#[derive(Clone, Debug)]
pub struct StreamLoc {
    pub kind: u64,
    pub column: u64,
    pub start: usize,
    pub len: usize,
}

pub struct StripeRd {
    pub start: usize,
    pub data_start: usize,
    pub footer_start: usize,
    pub end: usize,
    pub rows: u64,
    pub footer: StripeFooter,
    pub footer_stream: Stream,
    pub locs: Vec<StreamLoc>,
    /// Decompressed streams by (column, kind).
    pub streams: BTreeMap<(u64, u64), Stream>,
}

pub struct OrcFile<'a> {
    pub bytes: &'a [u8],
    pub kind: u64,
    pub block: u64,
    pub ps: PostScript,
    pub ps_start: usize,
    pub footer: Footer,
    pub footer_start: usize,
    pub footer_stream: Stream,
    pub meta: Vec<Vec<ColStats>>,
    pub meta_start: usize,
    pub meta_stream: Stream,
    pub stripes: Vec<StripeRd>,
}

fn sub(a: usize, b: u64, what: &str) -> Result<usize, String> {
    if b > a as u64 {
        Err(format!("{} of {} bytes does not fit in the {} bytes before it", what, b, a))
    } else {
        Ok(a - b as usize)
    }
}

impl<'a> OrcFile<'a> {
    pub fn parse(bytes: &'a [u8]) -> Result<OrcFile<'a>, String> {
        let n = bytes.len();
        if n < 4 {
            return Err(format!("file of {} bytes", n));
        }
        if &bytes[..3] != b"ORC" {
            return Err(format!("file does not start with ORC but {:?}", &bytes[..3]));
        }
        let psl = bytes[n - 1] as u64;
        let ps_start = sub(n - 1, psl, "postscript")?;
        let ps = PostScript::parse(&bytes[ps_start..n - 1]).map_err(|e| format!("postscript: {}", e))?;
        if ps.magic.as_deref() != Some("ORC") {
            return Err(format!("postscript magic {:?}", ps.magic));
        }
        let kind = ps.compression.unwrap_or(0);
        let block = ps.block_size.unwrap_or(262144);
        let fl = ps.footer_length.ok_or("postscript without footerLength")?;
        let ml = ps.metadata_length.ok_or("postscript without metadataLength")?;
        let footer_start = sub(ps_start, fl, "footer")?;
        let meta_start = sub(footer_start, ml, "metadata")?;
        let footer_stream = codec::decode(kind, block, &bytes[footer_start..ps_start]).map_err(|e| format!("footer: {}", e))?;
        let footer = Footer::parse(&footer_stream.data).map_err(|e| format!("footer: {}", e))?;
        let meta_stream = codec::decode(kind, block, &bytes[meta_start..footer_start]).map_err(|e| format!("metadata: {}", e))?;
        let meta = parse_metadata(&meta_stream.data).map_err(|e| format!("metadata: {}", e))?;
        let mut stripes = Vec::new();
        for (i, s) in footer.stripes.iter().enumerate() {
            let e = |m: String| format!("stripe {}: {}", i, m);
            let start = s.offset.ok_or_else(|| e("no offset".into()))?;
            let (il, dl, fl) = (s.index_len.unwrap_or(0), s.data_len.unwrap_or(0), s.footer_len.unwrap_or(0));
            let end = start as u128 + il as u128 + dl as u128 + fl as u128;
            if end > meta_start as u128 || start < 3 {
                return Err(e(format!("offset {} lengths {}+{}+{} leave the content area (ends {})", start, il, dl, fl, meta_start)));
            }
            let start = start as usize;
            let data_start = start + il as usize;
            let footer_start = data_start + dl as usize;
            let end = end as usize;
            let fs = codec::decode(kind, block, &bytes[footer_start..end]).map_err(|m| e(format!("footer: {}", m)))?;
            let sf = StripeFooter::parse(&fs.data).map_err(|m| e(format!("footer: {}", m)))?;
            let mut locs = Vec::new();
            let mut streams = BTreeMap::new();
            let mut p = start;
            for m in &sf.streams {
                if m.length > (footer_start - p) as u64 {
                    return Err(e(format!("stream {:?} does not fit before the stripe footer", m)));
                }
                let l = StreamLoc { kind: m.kind, column: m.column, start: p, len: m.length as usize };
                p += l.len;
                let st = codec::decode(kind, block, &bytes[l.start..p]).map_err(|m| e(format!("stream kind {} column {}: {}", l.kind, l.column, m)))?;
                if streams.insert((l.column, l.kind), st).is_some() {
                    return Err(e(format!("two streams of kind {} for column {}", l.kind, l.column)));
                }
                locs.push(l);
            }
            if p != footer_start {
                return Err(e(format!("streams end at {}, stripe footer starts at {}", p, footer_start)));
            }
            stripes.push(StripeRd {
                start,
                data_start,
                footer_start,
                end,
                rows: s.rows.ok_or_else(|| e("no numberOfRows".into()))?,
                footer: sf,
                footer_stream: fs,
                locs,
                streams,
            });
        }
        Ok(OrcFile { bytes, kind, block, ps, ps_start, footer, footer_start, footer_stream, meta, meta_start, meta_stream, stripes })
    }

    pub fn ty(&self) -> Result<Ty, String> {
        let mut next = 0;
        let t = build_ty(&self.footer.types, &mut next, 0)?;
        if next != self.footer.types.len() {
            return Err(format!("{} of {} footer types are reachable in pre-order", next, self.footer.types.len()));
        }
        Ok(t)
    }

    pub fn decode_stripe(&self, i: usize, ty: &Ty) -> Result<Vec<Val>, String> {
        let s = &self.stripes[i];
        if s.rows > MAX_VALUES {
            return Err(format!("stripe {}: {} rows", i, s.rows));
        }
        if s.footer.encodings.len() != ty.columns() {
            return Err(format!("stripe {}: {} column encodings for {} columns", i, s.footer.encodings.len(), ty.columns()));
        }
        decode_col(s, ty, 0, s.rows).map_err(|e| format!("stripe {}: {}", i, e))
    }

    pub fn decode_all(&self, ty: &Ty) -> Result<Vec<Val>, String> {
        let mut out = Vec::new();
        for i in 0..self.stripes.len() {
            out.extend(self.decode_stripe(i, ty)?);
        }
        Ok(out)
    }

    /// The expected rows of each stripe, by the recorded row counts.
    pub fn split_rows<'b>(&self, rows: &[&'b Val]) -> Result<Vec<Vec<&'b Val>>, String> {
        let mut p = 0;
        let mut out = Vec::new();
        for s in &self.stripes {
            if s.rows > (rows.len() - p) as u64 {
                return Err(format!("stripes record more rows than the {} committed", rows.len()));
            }
            out.push(rows[p..p + s.rows as usize].to_vec());
            p += s.rows as usize;
        }
        if p != rows.len() {
            return Err(format!("stripes record {} rows, {} were committed", p, rows.len()));
        }
        Ok(out)
    }
}

fn build_ty(types: &[TypeMsg], next: &mut usize, depth: usize) -> Result<Ty, String> {
    let id = *next;
    let t = types.get(id).ok_or("type tree: missing type")?;
    *next += 1;
    if depth > 200 {
        return Err("type tree too deep".into());
    }
    let mut kids = Vec::new();
    for s in &t.subtypes {
        if *s != *next as u64 {
            return Err(format!("type {}: child id {} where pre-order numbering gives {}", id, s, next));
        }
        kids.push(build_ty(types, next, depth + 1)?);
    }
    let n = kids.len();
    let arity = |want: usize| if n == want { Ok(()) } else { Err(format!("type {}: {} children", id, n)) };
    let kind = t.kind.ok_or_else(|| format!("type {}: no kind", id))?;
    if kind != 12 && !t.names.is_empty() {
        return Err(format!("type {}: field names on kind {}", id, kind));
    }
    let leaf = |x: Ty| -> Result<Ty, String> { arity(0).map(|_| x) };
    let u32of = |v: Option<u64>| v.unwrap_or(0) as u32;
    match kind {
        0 => leaf(Ty::Bool),
        2 => leaf(Ty::Short),
        3 => leaf(Ty::Int),
        4 => leaf(Ty::Long),
        5 => leaf(Ty::Float),
        6 => leaf(Ty::Double),
        7 => leaf(Ty::Str),
        8 => leaf(Ty::Bin),
        9 => leaf(Ty::Ts),
        10 => {
            arity(1)?;
            Ok(Ty::List(Box::new(kids.pop().unwrap())))
        }
        11 => {
            arity(2)?;
            let v = kids.pop().unwrap();
            Ok(Ty::Map(Box::new(kids.pop().unwrap()), Box::new(v)))
        }
        12 => {
            if t.names.len() != n {
                return Err(format!("type {}: {} field names for {} children", id, t.names.len(), n));
            }
            Ok(Ty::Struct(t.names.iter().cloned().zip(kids).collect()))
        }
        13 => Ok(Ty::Union(kids)),
        14 => leaf(Ty::Dec(u32of(t.precision), u32of(t.scale))),
        15 => leaf(Ty::Date),
        16 => leaf(Ty::VarChar(u32of(t.max_len))),
        17 => leaf(Ty::Char(u32of(t.max_len))),
        k => Err(format!("type {}: kind {}", id, k)),
    }
}

fn stream<'s>(s: &'s StripeRd, col: usize, kind: u64) -> Result<&'s [u8], String> {
    s.streams.get(&(col as u64, kind)).map(|x| &x.data[..]).ok_or_else(|| format!("column {}: no stream of kind {}", col, kind))
}

fn end(ok: bool, col: usize, what: &str) -> Result<(), String> {
    if ok {
        Ok(())
    } else {
        Err(format!("column {}: {} stream has values left over", col, what))
    }
}

/// Presence flags of a column with `n` values.
pub fn decode_present(s: &StripeRd, id: usize, n: u64) -> Result<Vec<bool>, String> {
    match s.streams.get(&(id as u64, PRESENT)) {
        None => Ok(vec![true; n as usize]),
        Some(st) => {
            let mut r = BitRle::new(&st.data);
            let mut v = Vec::with_capacity(n as usize);
            for _ in 0..n {
                v.push(r.next().map_err(|e| format!("column {}: PRESENT: {}", id, e))?);
            }
            end(r.at_end(), id, "PRESENT")?;
            Ok(v)
        }
    }
}

pub fn decode_lengths(s: &StripeRd, id: usize, n: u64) -> Result<Vec<u64>, String> {
    let mut r = IntRle::new(stream(s, id, LENGTH)?, false);
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(r.next().map_err(|e| format!("column {}: LENGTH: {}", id, e))? as u64);
    }
    end(r.at_end(), id, "LENGTH")?;
    Ok(v)
}

pub fn decode_col(s: &StripeRd, ty: &Ty, id: usize, n: u64) -> Result<Vec<Val>, String> {
    if n > MAX_VALUES {
        return Err(format!("column {}: {} values", id, n));
    }
    match s.footer.encodings.get(id) {
        Some((0, _)) => {}
        e => return Err(format!("column {}: encoding {:?}", id, e)),
    }
    let present = decode_present(s, id, n)?;
    let m = present.iter().filter(|x| **x).count() as u64;
    let vals: Vec<Val> = match ty {
        Ty::Bool => {
            let mut r = BitRle::new(stream(s, id, DATA)?);
            let v = (0..m).map(|_| r.next().map(Val::Bool)).collect::<Result<_, _>>().map_err(|e| format!("column {}: {}", id, e))?;
            end(r.at_end(), id, "DATA")?;
            v
        }
        Ty::Short | Ty::Int | Ty::Long | Ty::Date => {
            let mut r = IntRle::new(stream(s, id, DATA)?, true);
            let v = (0..m).map(|_| r.next().map(Val::Int)).collect::<Result<_, _>>().map_err(|e| format!("column {}: {}", id, e))?;
            end(r.at_end(), id, "DATA")?;
            v
        }
        Ty::Float => {
            let d = stream(s, id, DATA)?;
            if d.len() as u64 != 4 * m {
                return Err(format!("column {}: {} bytes of DATA for {} floats", id, d.len(), m));
            }
            d.chunks(4).map(|c| Val::F32(u32::from_le_bytes(c.try_into().unwrap()))).collect()
        }
        Ty::Double => {
            let d = stream(s, id, DATA)?;
            if d.len() as u64 != 8 * m {
                return Err(format!("column {}: {} bytes of DATA for {} doubles", id, d.len(), m));
            }
            d.chunks(8).map(|c| Val::F64(u64::from_le_bytes(c.try_into().unwrap()))).collect()
        }
        Ty::Ts => {
            let mut r = IntRle::new(stream(s, id, DATA)?, true);
            let mut q = IntRle::new(stream(s, id, SECONDARY)?, false);
            let mut v = Vec::new();
            for _ in 0..m {
                let a = r.next().map_err(|e| format!("column {}: DATA: {}", id, e))?;
                let b = q.next().map_err(|e| format!("column {}: SECONDARY: {}", id, e))?;
                let n = nanos(b as u64);
                if n > 999_999_999 {
                    return Err(format!("column {}: nanoseconds {} (encoded {})", id, n, b as u64));
                }
                v.push(Val::Ts(a, n as u32));
            }
            end(r.at_end(), id, "DATA")?;
            end(q.at_end(), id, "SECONDARY")?;
            v
        }
        Ty::Dec(_, sc) => {
            let d = stream(s, id, DATA)?;
            let mut q = IntRle::new(stream(s, id, SECONDARY)?, true);
            let mut p = 0;
            let mut v = Vec::new();
            for _ in 0..m {
                let x = unzigzag128(varint128(d, &mut p).map_err(|e| format!("column {}: DATA: {}", id, e))?);
                let k = q.next().map_err(|e| format!("column {}: SECONDARY: {}", id, e))?;
                if k != *sc as i64 {
                    return Err(format!("column {}: scale {} recorded for a decimal of scale {}", id, k, sc));
                }
                v.push(Val::Dec(x));
            }
            end(p == d.len(), id, "DATA")?;
            end(q.at_end(), id, "SECONDARY")?;
            v
        }
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) | Ty::Bin => {
            let lens = decode_lengths(s, id, m)?;
            let d = stream(s, id, DATA)?;
            let mut p = 0usize;
            let mut v = Vec::new();
            for l in lens {
                if l > (d.len() - p) as u64 {
                    return Err(format!("column {}: value of {} bytes, {} left", id, l, d.len() - p));
                }
                let b = &d[p..p + l as usize];
                p += l as usize;
                v.push(if *ty == Ty::Bin {
                    Val::Bin(b.to_vec())
                } else {
                    Val::Str(String::from_utf8(b.to_vec()).map_err(|_| format!("column {}: string is not UTF-8", id))?)
                });
            }
            end(p == d.len(), id, "DATA")?;
            v
        }
        Ty::Struct(f) => {
            let mut cols = Vec::new();
            let mut c = id + 1;
            for (_, t) in f {
                cols.push(decode_col(s, t, c, m)?.into_iter());
                c += t.columns();
            }
            (0..m).map(|_| Val::Struct(cols.iter_mut().map(|c| c.next().unwrap()).collect())).collect()
        }
        Ty::List(t) => {
            let lens = decode_lengths(s, id, m)?;
            let total = total(&lens, id)?;
            let mut it = decode_col(s, t, id + 1, total)?.into_iter();
            lens.iter().map(|l| Val::List((0..*l).map(|_| it.next().unwrap()).collect())).collect()
        }
        Ty::Map(k, v) => {
            let lens = decode_lengths(s, id, m)?;
            let total = total(&lens, id)?;
            let mut a = decode_col(s, k, id + 1, total)?.into_iter();
            let mut b = decode_col(s, v, id + 1 + k.columns(), total)?.into_iter();
            lens.iter().map(|l| Val::Map((0..*l).map(|_| (a.next().unwrap(), b.next().unwrap())).collect())).collect()
        }
        Ty::Union(ts) => {
            let mut r = ByteRle::new(stream(s, id, DATA)?);
            let tags: Vec<u8> = (0..m).map(|_| r.next()).collect::<Result<_, _>>().map_err(|e| format!("column {}: {}", id, e))?;
            end(r.at_end(), id, "DATA")?;
            let mut counts = vec![0u64; ts.len()];
            for t in &tags {
                *counts.get_mut(*t as usize).ok_or_else(|| format!("column {}: union tag {}", id, t))? += 1;
            }
            let mut cols = Vec::new();
            let mut c = id + 1;
            for (t, n) in ts.iter().zip(&counts) {
                cols.push(decode_col(s, t, c, *n)?.into_iter());
                c += t.columns();
            }
            tags.iter().map(|t| Val::Union(*t as usize, Box::new(cols[*t as usize].next().unwrap()))).collect()
        }
    };
    if m == n {
        return Ok(vals);
    }
    let mut it = vals.into_iter();
    Ok(present.into_iter().map(|p| if p { it.next().unwrap() } else { Val::Null }).collect())
}

fn total(lens: &[u64], id: usize) -> Result<u64, String> {
    let mut t: u64 = 0;
    for l in lens {
        t = t.checked_add(*l).filter(|t| *t <= MAX_VALUES).ok_or_else(|| format!("column {}: lengths add up to more than {}", id, MAX_VALUES))?;
    }
    Ok(t)
}

/// Compare decoded with expected values, for a readable message.
pub fn diff_rows(got: &[Val], want: &[&Val]) -> Result<(), String> {
    for (i, w) in want.iter().enumerate() {
        match got.get(i) {
            None => return Err(format!("row {} of {} is missing", i, want.len())),
            Some(g) if g != *w => return Err(format!("row {}: wrote {}, read {}", i, clip(&w.render(), 400), clip(&g.render(), 400))),
            _ => {}
        }
    }
    if got.len() != want.len() {
        return Err(format!("read {} rows, wrote {}", got.len(), want.len()));
    }
    Ok(())
}
