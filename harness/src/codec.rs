//! Compressed streams: chunk table, Snappy (own decoder) and Zstd.

use std::cell::RefCell;

pub const NONE: u64 = 0;
pub const SNAPPY: u64 = 2;
pub const ZSTD: u64 = 5;

/// Nothing this harness generates is bigger; a larger claim is a corrupt file.
const MAX_CHUNK: usize = 24 << 20;

#[derive(Clone, Debug)]
pub struct Chunk {
    /// Offset of the 3-byte header in the stored stream.
    pub start: usize,
    /// Stored body length.
    pub stored: usize,
    pub original: bool,
    /// Offset in the uncompressed stream.
    pub raw_start: usize,
    pub raw_len: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Stream {
    pub data: Vec<u8>,
    pub chunks: Vec<Chunk>,
    pub stored_len: usize,
    pub compressed: bool,
}

impl Stream {
    /// Offset in the uncompressed data of a recorded position (chunk start, offset within chunk).
    pub fn seek(&self, chunk_start: u64, off: u64) -> Result<usize, String> {
        if chunk_start as u128 == self.stored_len as u128 && off == 0 {
            return Ok(self.data.len());
        }
        match self.chunks.iter().find(|c| c.start as u64 == chunk_start) {
            Some(c) => {
                if off > c.raw_len as u64 {
                    return Err(format!("offset {} beyond chunk of {} bytes", off, c.raw_len));
                }
                Ok(c.raw_start + off as usize)
            }
            None => Err(format!("position names {} which is not the start of a chunk", chunk_start)),
        }
    }
}

pub fn snappy(b: &[u8]) -> Result<Vec<u8>, String> {
    let mut p = 0;
    let n = crate::pb::varint(b, &mut p).map_err(|_| "snappy: bad length")? as usize;
    if n > MAX_CHUNK {
        return Err("snappy: unreasonable length".into());
    }
    let mut out: Vec<u8> = Vec::with_capacity(n);
    while p < b.len() {
        let t = b[p];
        p += 1;
        let (off, l);
        match t & 3 {
            0 => {
                let mut l0 = (t >> 2) as usize;
                if l0 >= 60 {
                    let nb = l0 - 59;
                    let s = b.get(p..p + nb).ok_or("snappy: truncated literal length")?;
                    l0 = 0;
                    for (i, x) in s.iter().enumerate() {
                        l0 |= (*x as usize) << (8 * i);
                    }
                    p += nb;
                }
                let l1 = l0 + 1;
                let s = b.get(p..p.saturating_add(l1)).ok_or("snappy: truncated literal")?;
                out.extend_from_slice(s);
                p += l1;
                continue;
            }
            1 => {
                l = 4 + ((t >> 2) & 7) as usize;
                let x = *b.get(p).ok_or("snappy: truncated copy")?;
                p += 1;
                off = (((t >> 5) as usize) << 8) | x as usize;
            }
            2 => {
                l = 1 + (t >> 2) as usize;
                let s = b.get(p..p + 2).ok_or("snappy: truncated copy")?;
                p += 2;
                off = s[0] as usize | (s[1] as usize) << 8;
            }
            _ => {
                l = 1 + (t >> 2) as usize;
                let s = b.get(p..p + 4).ok_or("snappy: truncated copy")?;
                p += 4;
                off = u32::from_le_bytes(s.try_into().unwrap()) as usize;
            }
        }
        if off == 0 || off > out.len() || out.len() + l > n {
            return Err("snappy: bad copy".into());
        }
        for _ in 0..l {
            out.push(out[out.len() - off]);
        }
    }
    if out.len() != n {
        return Err("snappy: length mismatch".into());
    }
    Ok(out)
}

/// Content size recorded in a Zstd frame header, if any.
fn zstd_content_size(b: &[u8]) -> Result<Option<usize>, String> {
    if b.len() < 6 || b[..4] != [0x28, 0xB5, 0x2F, 0xFD] {
        return Err("zstd: not a frame".into());
    }
    let d = b[4];
    let single = d & 0x20 != 0;
    let fcs = match d >> 6 {
        0 => usize::from(single),
        1 => 2,
        2 => 4,
        _ => 8,
    };
    let dict = [0usize, 1, 2, 4][(d & 3) as usize];
    let p = 5 + usize::from(!single) + dict;
    let s = b.get(p..p + fcs).ok_or("zstd: truncated header")?;
    let mut v: u64 = 0;
    for (i, x) in s.iter().enumerate() {
        v |= (*x as u64) << (8 * i);
    }
    Ok(match fcs {
        0 => None,
        2 => Some(v as usize + 256),
        _ => Some(v.min(1 << 40) as usize),
    })
}

thread_local! {
    static ZCTX: RefCell<Option<zstd::bulk::Decompressor<'static>>> = const { RefCell::new(None) };
}

pub fn zstd_chunk(b: &[u8], block: usize) -> Result<Vec<u8>, String> {
    let cap = zstd_content_size(b)?.unwrap_or(block);
    if cap > MAX_CHUNK {
        return Err("zstd: unreasonable length".into());
    }
    ZCTX.with(|z| {
        let mut z = z.borrow_mut();
        if z.is_none() {
            *z = Some(zstd::bulk::Decompressor::new().map_err(|e| e.to_string())?);
        }
        z.as_mut().unwrap().decompress(b, cap).map_err(|e| format!("zstd: {}", e))
    })
}

pub fn decode(kind: u64, block: u64, b: &[u8]) -> Result<Stream, String> {
    if kind == NONE {
        return Ok(Stream { data: b.to_vec(), chunks: vec![], stored_len: b.len(), compressed: false });
    }
    let mut s = Stream { stored_len: b.len(), compressed: true, ..Default::default() };
    let mut p = 0;
    while p < b.len() {
        let h = b.get(p..p + 3).ok_or_else(|| format!("truncated chunk header at {}", p))?;
        let h = h[0] as usize | (h[1] as usize) << 8 | (h[2] as usize) << 16;
        let original = h & 1 == 1;
        let n = h >> 1;
        let body = b.get(p + 3..p + 3 + n).ok_or_else(|| format!("chunk at {} claims {} bytes, {} left", p, n, b.len() - p - 3))?;
        let raw_start = s.data.len();
        if original {
            s.data.extend_from_slice(body);
        } else {
            let d = match kind {
                SNAPPY => snappy(body),
                ZSTD => zstd_chunk(body, block as usize),
                k => Err(format!("codec {}", k)),
            }
            .map_err(|e| format!("chunk at {}: {}", p, e))?;
            s.data.extend_from_slice(&d);
        }
        s.chunks.push(Chunk { start: p, stored: n, original, raw_start, raw_len: s.data.len() - raw_start });
        p += 3 + n;
    }
    Ok(s)
}
