//! An independent protobuf reader for the ORC metadata messages (written from the ORC specification,
//! not from /repo's generated code).

#[derive(Clone, Debug, PartialEq)]
pub enum Wire<'a> {
    Varint(u64),
    I64(u64),
    Len(&'a [u8]),
    I32(u32),
}

pub fn varint(b: &[u8], p: &mut usize) -> Result<u64, String> {
    let mut v: u64 = 0;
    for i in 0..10 {
        let x = *b.get(*p).ok_or("protobuf: truncated varint")?;
        *p += 1;
        if i == 9 && x > 1 {
            return Err("protobuf: varint overflow".into());
        }
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x < 0x80 {
            return Ok(v);
        }
    }
    Err("protobuf: varint too long".into())
}

pub fn fields(b: &[u8]) -> Result<Vec<(u32, Wire<'_>)>, String> {
    let mut p = 0;
    let mut out = Vec::new();
    while p < b.len() {
        let key = varint(b, &mut p)?;
        let num = (key >> 3) as u32;
        if key >> 3 == 0 || key >> 3 > 0x1fff_ffff {
            return Err("protobuf: bad field number".into());
        }
        let w = match key & 7 {
            0 => Wire::Varint(varint(b, &mut p)?),
            1 => {
                let s = b.get(p..p + 8).ok_or("protobuf: truncated fixed64")?;
                p += 8;
                Wire::I64(u64::from_le_bytes(s.try_into().unwrap()))
            }
            2 => {
                let n = varint(b, &mut p)?;
                if n > u32::MAX as u64 {
                    // Implementations differ in what they make of it.
                    return Err("protobuf: length of more than 32 bits".into());
                }
                if n > (b.len() - p) as u64 {
                    return Err("protobuf: truncated bytes".into());
                }
                let s = &b[p..p + n as usize];
                p += n as usize;
                Wire::Len(s)
            }
            5 => {
                let s = b.get(p..p + 4).ok_or("protobuf: truncated fixed32")?;
                p += 4;
                Wire::I32(u32::from_le_bytes(s.try_into().unwrap()))
            }
            t => return Err(format!("protobuf: wire type {}", t)),
        };
        out.push((num, w));
    }
    Ok(out)
}

fn u(w: &Wire) -> Result<u64, String> {
    match w {
        Wire::Varint(v) => Ok(*v),
        _ => Err("protobuf: expected varint".into()),
    }
}
fn len<'a>(w: &Wire<'a>) -> Result<&'a [u8], String> {
    match w {
        Wire::Len(v) => Ok(v),
        _ => Err("protobuf: expected length-delimited field".into()),
    }
}
fn dbl(w: &Wire) -> Result<f64, String> {
    match w {
        Wire::I64(v) => Ok(f64::from_bits(*v)),
        _ => Err("protobuf: expected double".into()),
    }
}
fn st(w: &Wire) -> Result<String, String> {
    String::from_utf8(len(w)?.to_vec()).map_err(|_| "protobuf: string is not UTF-8".into())
}
pub fn zigzag(v: u64) -> i64 {
    ((v >> 1) as i64) ^ -((v & 1) as i64)
}
fn packed(w: &Wire, out: &mut Vec<u64>) -> Result<(), String> {
    match w {
        Wire::Varint(v) => out.push(*v),
        Wire::Len(b) => {
            let mut p = 0;
            while p < b.len() {
                out.push(varint(b, &mut p)?);
            }
        }
        _ => return Err("protobuf: expected packed varints".into()),
    }
    Ok(())
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct MinMaxSum<T> {
    pub min: Option<T>,
    pub max: Option<T>,
    pub sum: Option<T>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct StrStats {
    pub min: Option<String>,
    pub max: Option<String>,
    pub sum: Option<i64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct TsStats {
    pub min: Option<i64>,
    pub max: Option<i64>,
    pub min_utc: Option<i64>,
    pub max_utc: Option<i64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct ColStats {
    pub values: Option<u64>,
    pub has_null: Option<bool>,
    pub int: Option<MinMaxSum<i64>>,
    pub dbl: Option<MinMaxSum<f64>>,
    pub str: Option<StrStats>,
    pub bucket: Option<Vec<u64>>,
    pub dec: Option<MinMaxSum<String>>,
    pub date: Option<MinMaxSum<i64>>,
    pub bin: Option<Option<i64>>,
    pub ts: Option<TsStats>,
}

impl ColStats {
    pub fn parse(b: &[u8]) -> Result<ColStats, String> {
        let mut c = ColStats::default();
        for (n, w) in fields(b)? {
            match n {
                1 => c.values = Some(u(&w)?),
                2 => {
                    let mut s = MinMaxSum::default();
                    for (n, w) in fields(len(&w)?)? {
                        let v = Some(zigzag(u(&w)?));
                        match n {
                            1 => s.min = v,
                            2 => s.max = v,
                            3 => s.sum = v,
                            _ => {}
                        }
                    }
                    c.int = Some(s);
                }
                3 => {
                    let mut s = MinMaxSum::default();
                    for (n, w) in fields(len(&w)?)? {
                        let v = Some(dbl(&w)?);
                        match n {
                            1 => s.min = v,
                            2 => s.max = v,
                            3 => s.sum = v,
                            _ => {}
                        }
                    }
                    c.dbl = Some(s);
                }
                4 => {
                    let mut s = StrStats::default();
                    for (n, w) in fields(len(&w)?)? {
                        match n {
                            1 => s.min = Some(st(&w)?),
                            2 => s.max = Some(st(&w)?),
                            3 => s.sum = Some(zigzag(u(&w)?)),
                            _ => {}
                        }
                    }
                    c.str = Some(s);
                }
                5 => {
                    let mut v = Vec::new();
                    for (n, w) in fields(len(&w)?)? {
                        if n == 1 {
                            packed(&w, &mut v)?;
                        }
                    }
                    c.bucket = Some(v);
                }
                6 => {
                    let mut s = MinMaxSum::default();
                    for (n, w) in fields(len(&w)?)? {
                        match n {
                            1 => s.min = Some(st(&w)?),
                            2 => s.max = Some(st(&w)?),
                            3 => s.sum = Some(st(&w)?),
                            _ => {}
                        }
                    }
                    c.dec = Some(s);
                }
                7 => {
                    let mut s = MinMaxSum::default();
                    for (n, w) in fields(len(&w)?)? {
                        // sint32
                        let r = u(&w)? as u32;
                        let v = Some((((r >> 1) as i32) ^ -((r & 1) as i32)) as i64);
                        match n {
                            1 => s.min = v,
                            2 => s.max = v,
                            _ => {}
                        }
                    }
                    c.date = Some(s);
                }
                8 => {
                    let mut s = None;
                    for (n, w) in fields(len(&w)?)? {
                        if n == 1 {
                            s = Some(zigzag(u(&w)?));
                        }
                    }
                    c.bin = Some(s);
                }
                9 => {
                    let mut s = TsStats::default();
                    for (n, w) in fields(len(&w)?)? {
                        let v = Some(zigzag(u(&w)?));
                        match n {
                            1 => s.min = v,
                            2 => s.max = v,
                            3 => s.min_utc = v,
                            4 => s.max_utc = v,
                            _ => {}
                        }
                    }
                    c.ts = Some(s);
                }
                10 => c.has_null = Some(u(&w)? != 0),
                _ => {}
            }
        }
        Ok(c)
    }
}

#[derive(Clone, Debug, Default)]
pub struct PostScript {
    pub footer_length: Option<u64>,
    pub compression: Option<u64>,
    pub block_size: Option<u64>,
    pub version: Vec<u64>,
    pub metadata_length: Option<u64>,
    pub writer_version: Option<u64>,
    pub magic: Option<String>,
}

impl PostScript {
    pub fn parse(b: &[u8]) -> Result<PostScript, String> {
        let mut p = PostScript::default();
        for (n, w) in fields(b)? {
            match n {
                1 => p.footer_length = Some(u(&w)?),
                2 => p.compression = Some(u(&w)?),
                3 => p.block_size = Some(u(&w)?),
                4 => packed(&w, &mut p.version)?,
                5 => p.metadata_length = Some(u(&w)?),
                6 => p.writer_version = Some(u(&w)?),
                8000 => p.magic = Some(st(&w)?),
                _ => {}
            }
        }
        Ok(p)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct TypeMsg {
    pub kind: Option<u64>,
    pub subtypes: Vec<u64>,
    pub names: Vec<String>,
    pub max_len: Option<u64>,
    pub precision: Option<u64>,
    pub scale: Option<u64>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct StripeInfo {
    pub offset: Option<u64>,
    pub index_len: Option<u64>,
    pub data_len: Option<u64>,
    pub footer_len: Option<u64>,
    pub rows: Option<u64>,
}

#[derive(Clone, Debug, Default)]
pub struct Footer {
    pub header_length: Option<u64>,
    pub content_length: Option<u64>,
    pub stripes: Vec<StripeInfo>,
    pub types: Vec<TypeMsg>,
    pub user_metadata: usize,
    pub rows: Option<u64>,
    pub stats: Vec<ColStats>,
    pub stride: Option<u64>,
}

impl Footer {
    pub fn parse(b: &[u8]) -> Result<Footer, String> {
        let mut f = Footer::default();
        for (n, w) in fields(b)? {
            match n {
                1 => f.header_length = Some(u(&w)?),
                2 => f.content_length = Some(u(&w)?),
                3 => {
                    let mut s = StripeInfo::default();
                    for (n, w) in fields(len(&w)?)? {
                        let v = Some(u(&w)?);
                        match n {
                            1 => s.offset = v,
                            2 => s.index_len = v,
                            3 => s.data_len = v,
                            4 => s.footer_len = v,
                            5 => s.rows = v,
                            _ => {}
                        }
                    }
                    f.stripes.push(s);
                }
                4 => {
                    let mut t = TypeMsg::default();
                    for (n, w) in fields(len(&w)?)? {
                        match n {
                            1 => t.kind = Some(u(&w)?),
                            2 => packed(&w, &mut t.subtypes)?,
                            3 => t.names.push(st(&w)?),
                            4 => t.max_len = Some(u(&w)?),
                            5 => t.precision = Some(u(&w)?),
                            6 => t.scale = Some(u(&w)?),
                            _ => {}
                        }
                    }
                    f.types.push(t);
                }
                5 => f.user_metadata += 1,
                6 => f.rows = Some(u(&w)?),
                7 => f.stats.push(ColStats::parse(len(&w)?)?),
                8 => f.stride = Some(u(&w)?),
                _ => {}
            }
        }
        Ok(f)
    }
}

pub fn parse_metadata(b: &[u8]) -> Result<Vec<Vec<ColStats>>, String> {
    let mut out = Vec::new();
    for (n, w) in fields(b)? {
        if n == 1 {
            let mut cols = Vec::new();
            for (n, w) in fields(len(&w)?)? {
                if n == 1 {
                    cols.push(ColStats::parse(len(&w)?)?);
                }
            }
            out.push(cols);
        }
    }
    Ok(out)
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct StreamMsg {
    pub kind: u64,
    pub column: u64,
    pub length: u64,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct StripeFooter {
    pub streams: Vec<StreamMsg>,
    /// (kind, dictionarySize)
    pub encodings: Vec<(u64, Option<u64>)>,
}

impl StripeFooter {
    pub fn parse(b: &[u8]) -> Result<StripeFooter, String> {
        let mut f = StripeFooter::default();
        for (n, w) in fields(b)? {
            match n {
                1 => {
                    let mut s = StreamMsg::default();
                    for (n, w) in fields(len(&w)?)? {
                        let v = u(&w)?;
                        match n {
                            1 => s.kind = v,
                            2 => s.column = v,
                            3 => s.length = v,
                            _ => {}
                        }
                    }
                    // proto2 defaults apply to a missing kind / column / length
                    f.streams.push(s);
                }
                2 => {
                    let mut e = (0, None);
                    for (n, w) in fields(len(&w)?)? {
                        match n {
                            1 => e.0 = u(&w)?,
                            2 => e.1 = Some(u(&w)?),
                            _ => {}
                        }
                    }
                    f.encodings.push(e);
                }
                _ => {}
            }
        }
        Ok(f)
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct IndexEntry {
    pub positions: Vec<u64>,
    pub stats: Option<ColStats>,
}

pub fn parse_row_index(b: &[u8]) -> Result<Vec<IndexEntry>, String> {
    let mut out = Vec::new();
    for (n, w) in fields(b)? {
        if n == 1 {
            let mut e = IndexEntry::default();
            for (n, w) in fields(len(&w)?)? {
                match n {
                    1 => packed(&w, &mut e.positions)?,
                    2 => e.stats = Some(ColStats::parse(len(&w)?)?),
                    _ => {}
                }
            }
            out.push(e);
        }
    }
    Ok(out)
}
