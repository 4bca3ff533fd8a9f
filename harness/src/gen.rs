//! Generators. Everything is drawn from a `Src`; value 0 is always the simplest alternative.

use crate::engine::{Rng, Src};
use crate::model::*;

#[derive(Clone, Copy)]
pub struct SchemaOpts {
    pub max_depth: usize,
    pub max_cols: usize,
    pub root_struct_pct: u64,
}

impl Default for SchemaOpts {
    fn default() -> Self {
        SchemaOpts { max_depth: 4, max_cols: 12, root_struct_pct: 75 }
    }
}

pub fn gen_name(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => ["a", "b", "col", "x_1", "Value"][s.below(5) as usize].to_string(),
        1 => (0..s.us(0, 12)).map(|_| gen_char(s)).collect(),
        2 => String::new(),
        _ if s.chance(1, 20) => "m".repeat(s.us(300, 70_000)),
        _ => "n".repeat(s.us(1, 300)),
    }
}

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => (s.range(0, 127) as u8) as char,
        2 => ['é', 'ß', '\u{7ff}', '\u{800}', '\u{ffff}', '漢', '\u{10000}', '\u{10ffff}', '\0', '\u{80}'][s.below(10) as usize],
        _ => loop {
            if let Some(c) = char::from_u32(s.below(0x110000) as u32) {
                break c;
            }
        },
    }
}

pub fn gen_decimal_ty(s: &mut Src) -> Ty {
    let p = match s.weighted(&[3, 1, 1]) {
        0 => s.range(1, 38) as u32,
        1 => 38,
        _ => *s.pick(&[1u32, 18, 19, 20, 37]),
    };
    let sc = match s.weighted(&[3, 1, 1]) {
        0 => s.below(p as u64 + 1) as u32,
        1 => 0,
        _ => p,
    };
    Ty::Dec(p, sc)
}

pub fn gen_leaf_ty(s: &mut Src) -> Ty {
    match s.weighted(&[5, 3, 2, 2, 2, 2, 2, 3, 3, 4, 3, 1, 1]) {
        0 => Ty::Long,
        1 => Ty::Bool,
        2 => Ty::Short,
        3 => Ty::Int,
        4 => Ty::Date,
        5 => Ty::Float,
        6 => Ty::Double,
        7 => Ty::Ts,
        8 => gen_decimal_ty(s),
        9 => Ty::Str,
        10 => Ty::Bin,
        11 => Ty::Char(gen_max_len(s, 20)),
        _ => Ty::VarChar(gen_max_len(s, 300)),
    }
}

pub fn gen_max_len(s: &mut Src, usual: u64) -> u32 {
    if s.chance(1, 8) {
        *s.pick(&[127u32, 128, 255, 256, 16383, 16384, 65535, 65536, i32::MAX as u32, 1 << 31, u32::MAX])
    } else {
        s.range(1, usual) as u32
    }
}

pub fn gen_ty(s: &mut Src, depth: usize, budget: &mut usize) -> Ty {
    *budget = budget.saturating_sub(1);
    if depth == 0 || *budget == 0 {
        return gen_leaf_ty(s);
    }
    match s.weighted(&[60, 14, 11, 8, 7]) {
        0 => gen_leaf_ty(s),
        1 => gen_struct(s, depth, budget),
        2 => Ty::List(Box::new(gen_ty(s, depth - 1, budget))),
        3 => {
            let k = gen_ty(s, depth - 1, budget);
            let v = gen_ty(s, depth - 1, budget);
            Ty::Map(Box::new(k), Box::new(v))
        }
        _ => {
            let n = s.us(1, 4).min((*budget).max(1));
            Ty::Union((0..n).map(|_| gen_ty(s, depth - 1, budget)).collect())
        }
    }
}

fn gen_struct(s: &mut Src, depth: usize, budget: &mut usize) -> Ty {
    let n = s.us(0, 5).min(*budget);
    Ty::Struct(
        (0..n)
            .map(|_| {
                let name = gen_name(s);
                (name, gen_ty(s, depth - 1, budget))
            })
            .collect(),
    )
}

pub fn gen_schema(s: &mut Src, o: SchemaOpts) -> Ty {
    let mut budget = s.us(1, o.max_cols);
    let depth = s.us(1, o.max_depth);
    if s.below(100) < o.root_struct_pct {
        let n = s.us(1, 6).min(budget);
        Ty::Struct(
            (0..n)
                .map(|_| {
                    let name = gen_name(s);
                    (name, gen_ty(s, depth - 1, &mut budget))
                })
                .collect(),
        )
    } else {
        gen_ty(s, depth, &mut budget)
    }
}

pub fn gen_comp(s: &mut Src) -> Comp {
    match s.weighted(&[3, 3, 3]) {
        0 => Comp::None,
        1 => Comp::Snappy(gen_block(s)),
        _ => {
            let b = gen_block(s);
            let l = match s.weighted(&[5, 4, 1]) {
                0 => None,
                1 => Some(s.range(1, 6) as i32),
                _ => Some(s.range(1, 22) as i32),
            };
            // High levels allocate large tables per block: pair them with blocks that are not tiny.
            let b = match (b, l) {
                (Some(x), Some(l)) if l > 6 && x < 256 => Some(256),
                _ => b,
            };
            Comp::Zstd(b, l)
        }
    }
}

pub fn gen_block(s: &mut Src) -> Option<usize> {
    match s.weighted(&[15, 5, 25, 30, 18, 7]) {
        0 => None,
        1 => Some(s.us(1, 4)),
        2 => Some(s.us(5, 64)),
        3 => Some(s.us(65, 1000)),
        4 => Some(s.us(1001, 20000)),
        _ => Some(*s.pick(&[65535usize, 65536, 131072, 262143, 262144, 1 << 20, 0x7fffff])),
    }
}

pub fn gen_stride(s: &mut Src) -> Option<u32> {
    match s.weighted(&[15, 35, 20, 22, 5]) {
        0 => None,
        1 => Some(s.range(1, 16) as u32),
        2 => Some(s.range(17, 260) as u32),
        3 => Some(*s.pick(&[8u32, 64, 100, 127, 128, 129, 130, 131, 256, 1000, 1024])),
        _ => Some(*s.pick(&[10000u32, 1_000_000, u32::MAX])),
    }
}

pub fn gen_stripe(s: &mut Src) -> Option<usize> {
    match s.weighted(&[30, 10, 20, 25, 15]) {
        0 => None,
        1 => Some(0),
        2 => Some(s.us(1, 200)),
        3 => Some(s.us(200, 5000)),
        _ => Some(usize::MAX),
    }
}

pub fn gen_cfg(s: &mut Src) -> Cfg {
    Cfg { stride: gen_stride(s), comp: gen_comp(s), stripe: gen_stripe(s) }
}

/// Lengths of runs: many short ones, and clusters around the run-length limits.
pub fn seg_len(s: &mut Src) -> u64 {
    match s.weighted(&[40, 25, 15, 8, 12]) {
        0 => s.range(1, 4),
        1 => s.range(1, 20),
        2 => s.range(125, 134),
        3 => s.range(254, 264),
        _ => s.range(1, 600),
    }
}

pub fn gen_bits(s: &mut Src, max: u32) -> i128 {
    // value with a random number of significant bits, random sign
    let w = s.below(max as u64 + 1) as u32;
    let raw = ((s.bits() as u128) << 64) | if w > 64 { s.bits() as u128 } else { 0 };
    let m = if w == 0 { 0 } else { raw >> (128 - w) };
    let v = m as i128;
    if s.chance(1, 2) {
        v.wrapping_neg()
    } else {
        v
    }
}

pub fn gen_int(s: &mut Src, lo: i64, hi: i64) -> i64 {
    let v: i64 = match s.weighted(&[4, 3, 4, 2]) {
        0 => s.range(0, 10) as i64 - 3,
        1 => *s.pick(&[
            0i64, 1, -1, 63, 64, -64, -65, 127, 128, -128, -129, 8191, 8192, -8192, -8193, 16383, 16384, 32767, -32768, 2147483647,
            -2147483648, 4294967295, 4294967296, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1, 1 << 62, -(1 << 62), (1 << 53) + 1,
        ]),
        2 => gen_bits(s, 64) as i64,
        _ => match s.below(4) {
            0 => lo,
            1 => hi,
            2 => lo + 1,
            _ => hi - 1,
        },
    };
    if v < lo || v > hi {
        // fold into the range
        let span = (hi as i128) - (lo as i128) + 1;
        (lo as i128 + ((v as i128 - lo as i128).rem_euclid(span))) as i64
    } else {
        v
    }
}

/// A stream of integers with run structure.
pub struct IntSeq {
    lo: i64,
    hi: i64,
    left: u64,
    mode: usize,
    cur: i64,
    delta: i64,
    alt: i64,
}

impl IntSeq {
    pub fn new(lo: i64, hi: i64) -> IntSeq {
        IntSeq { lo, hi, left: 0, mode: 0, cur: 0, delta: 0, alt: 0 }
    }
    pub fn next(&mut self, s: &mut Src) -> i64 {
        if self.left == 0 {
            self.mode = s.weighted(&[3, 4, 4, 1, 1]);
            self.left = seg_len(s);
            self.cur = if s.chance(1, 4) {
                // continue from the previous value, so that runs abut
                self.cur
            } else {
                gen_int(s, self.lo, self.hi)
            };
            self.delta = match s.weighted(&[3, 2, 2, 1]) {
                0 => *s.pick(&[1i64, -1, 2, 5, 127, -128, 128, -129, 126, -127, 129, -130]),
                1 => s.range(0, 300) as i64 - 150,
                2 => *s.pick(&[255i64, 256, 257, -255, -256, 1000, 65536, i64::MAX, i64::MIN, 1 << 32, (1 << 32) + 1, (1 << 32) - 1]),
                _ => gen_bits(s, 64) as i64,
            };
            self.alt = gen_int(s, self.lo, self.hi);
        }
        self.left -= 1;
        let out = self.cur;
        match self.mode {
            0 => {
                if self.left > 0 {
                    // fresh value next time
                    self.cur = gen_int(s, self.lo, self.hi);
                }
            }
            1 => {}
            2 => {
                let n = self.cur.wrapping_add(self.delta);
                self.cur = if n < self.lo || n > self.hi { gen_int(s, self.lo, self.hi) } else { n };
            }
            3 => std::mem::swap(&mut self.cur, &mut self.alt),
            _ => {
                // pairs: a a b b c c (never a run of three)
                if self.left % 2 == 0 {
                    self.cur = gen_int(s, self.lo, self.hi);
                }
            }
        }
        out
    }
}

/// Null pattern of a column.
pub struct NullSeq {
    mode: usize,
    p: u64,
    left: u64,
    cur: bool,
}

impl NullSeq {
    pub fn new(s: &mut Src, allow: bool) -> NullSeq {
        let mode = if allow { s.weighted(&[45, 22, 22, 5, 6]) } else { 0 };
        let p = if mode == 2 { s.range(1, 15) } else { 0 };
        NullSeq { mode, p, left: 0, cur: false }
    }
    pub fn next(&mut self, s: &mut Src) -> bool {
        match self.mode {
            0 => false,
            1 => {
                if self.left == 0 {
                    self.left = seg_len(s);
                    self.cur = s.chance(1, 2);
                }
                self.left -= 1;
                self.cur
            }
            2 => s.chance(self.p, 16),
            3 => true,
            _ => s.chance(1, 200),
        }
    }
}

pub struct Budget {
    pub vals: i64,
    pub bytes: i64,
    /// Lengths of megabytes now and then.
    pub big: bool,
}

enum St {
    Int(IntSeq),
    Bool { left: u64, mode: usize, cur: bool },
    F { left: u64, cur: u64 },
    Ts { sec: IntSeq, nan: NanoSeq },
    Dec { left: u64, mode: usize, cur: i128, delta: i128 },
    Str { left: u64, mode: usize, cur: String, n: u64, prog: LenProg },
    Bin { left: u64, mode: usize, cur: Vec<u8>, prog: LenProg },
    Struct,
    Len { left: u64, mode: usize, cur: u64, prog: LenProg },
    Tag { left: u64, mode: usize, cur: usize },
}

pub struct NanoSeq {
    left: u64,
    mode: usize,
    cur: u32,
}

impl NanoSeq {
    pub fn new() -> NanoSeq {
        NanoSeq { left: 0, mode: 0, cur: 0 }
    }
    pub fn next(&mut self, s: &mut Src) -> u32 {
        if self.left == 0 {
            self.left = seg_len(s);
            self.mode = s.weighted(&[3, 2]);
            self.cur = gen_nanos(s);
        }
        self.left -= 1;
        let out = self.cur;
        if self.mode == 0 {
            self.cur = gen_nanos(s);
        }
        out
    }
}

pub fn gen_nanos(s: &mut Src) -> u32 {
    match s.weighted(&[3, 3, 3, 2]) {
        0 => {
            // d significant digits followed by z zeros
            let z = s.below(9) as u32;
            let m = s.below(10u64.pow(9 - z));
            (m * 10u64.pow(z)) as u32
        }
        1 => {
            let z = s.below(9) as u32;
            let m = s.below(10u64.pow((9 - z).min(2)));
            (m * 10u64.pow(z)) as u32
        }
        2 => s.below(1_000_000_000) as u32,
        _ => *s.pick(&[
            0u32, 1, 9, 10, 99, 100, 101, 1000, 999_999, 1_000_000, 999_000_000, 999_999_999, 536_870_911, 536_870_912, 500_000_000,
            100_000_000, 999_999_990, 999_999_900, 123_456_789, 10_000_000,
        ]),
    }
}

/// Seconds relative to 2015-01-01 such that the UNIX millisecond count fits in 64 bits.
pub const TS_LO: i64 = -9_223_372_036_854_775 - 1_420_070_400;
pub const TS_HI: i64 = 9_223_372_036_854_774 - 1_420_070_400;

pub fn gen_float(s: &mut Src, wide: bool) -> u64 {
    let f64s = [
        0.0f64, -0.0, 1.0, -1.0, 0.5, 1.5, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, 1e10, -1e-10,
        3.25, 1e300, -1e300,
    ];
    let f32s = [
        0.0f32, -0.0, 1.0, -1.0, 0.5, 1.5, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, 1e10, -1e-10, 3.25,
    ];
    if wide {
        match s.weighted(&[4, 3, 3, 1]) {
            0 => ((s.below(2000) as f64 - 1000.0) * 0.25).to_bits(),
            1 => s.pick(&f64s).to_bits(),
            2 => s.bits(),
            _ => *s.pick(&[f64::NAN.to_bits(), 0x7ff0000000000001, 0xfff8000000000000, 0xffffffffffffffff, 1, 0x8000000000000001]),
        }
    } else {
        (match s.weighted(&[4, 3, 3, 1]) {
            0 => ((s.below(2000) as f32 - 1000.0) * 0.25).to_bits(),
            1 => s.pick(&f32s).to_bits(),
            2 => s.bits() as u32,
            _ => *s.pick(&[f32::NAN.to_bits(), 0x7f800001, 0xffc00000, 0xffffffff, 1, 0x80000001]),
        }) as u64
    }
}

pub fn dec_limit(p: u32) -> i128 {
    10i128.pow(p.min(38)) - 1
}

pub fn gen_dec(s: &mut Src, p: u32) -> i128 {
    let lim = dec_limit(p);
    let v: i128 = match s.weighted(&[4, 4, 3, 2]) {
        0 => s.range(0, 400) as i128 - 200,
        1 => gen_bits(s, 127),
        2 => {
            // near a power of ten or of two
            let b = if s.chance(1, 2) { 10i128.pow(s.below(39) as u32) } else { 1i128 << s.below(127) };
            let d = s.range(0, 4) as i128 - 2;
            let v = b.saturating_add(d);
            if s.chance(1, 2) { -v } else { v }
        }
        _ => *s.pick(&[lim, -lim, lim - 1, i64::MAX as i128, i64::MIN as i128, i64::MAX as i128 + 1, i64::MIN as i128 - 1, -85070591730234615865843651857942052864]),
    };
    if v > lim || v < -lim { v % (lim + 1) } else { v }
}

pub fn gen_len(s: &mut Src, hint: usize, bud: &Budget) -> usize {
    if bud.big && s.chance(1, 5) {
        let n = match s.below(3) {
            0 => *s.pick(&[65_534usize, 131_070, 262_142, 1 << 19, (1 << 20) - 2, (1 << 21) - 2, (1 << 22) - 2, 3_000_000]) + s.us(0, 4),
            1 => s.us(60_000, 1 << 20),
            _ => s.us(60_000, 5 << 20),
        };
        return n.min(bud.bytes.max(0) as usize);
    }
    let m = match s.weighted(&[30, 25, 20, 12, 8, 5]) {
        0 => s.us(0, 4),
        1 => s.us(0, 20),
        2 => s.us(0, 100),
        3 => s.us(0, 600),
        4 => {
            // around the block size
            let d = s.us(0, 6);
            (hint.min(70000) + d).saturating_sub(3)
        }
        _ => {
            let k = s.us(1, 5);
            let d = s.us(0, 4);
            (hint.min(20000) * k + d).saturating_sub(2)
        }
    };
    m.min(bud.bytes.max(0) as usize)
}

pub fn gen_bytes(s: &mut Src, n: usize) -> Vec<u8> {
    match s.weighted(&[3, 3, 2]) {
        0 => {
            let b = s.below(256) as u8;
            vec![b; n]
        }
        1 => {
            let mut v = Vec::with_capacity(n + 8);
            let mut long = if n > 512 { Some(Rng::new(s.below(1 << 32))) } else { None };
            while v.len() < n {
                let x = match &mut long {
                    Some(r) => r.next(),
                    None => s.bits(),
                };
                v.extend_from_slice(&x.to_le_bytes());
            }
            v.truncate(n);
            v
        }
        _ => {
            let p = s.us(1, 7);
            let pat: Vec<u8> = (0..p).map(|_| s.below(256) as u8).collect();
            (0..n).map(|i| pat[i % p]).collect()
        }
    }
}

pub fn gen_string(s: &mut Src, n: usize) -> String {
    // n is a byte budget
    match s.weighted(&[3, 3, 2, 1]) {
        0 => ((b'a' + s.below(26) as u8) as char).to_string().repeat(n),
        1 => {
            // random printable from 64-bit choices
            let mut v = String::with_capacity(n);
            let mut long = if n > 512 { Some(Rng::new(s.below(1 << 32))) } else { None };
            while v.len() < n {
                let x = match &mut long {
                    Some(r) => r.next(),
                    None => s.bits(),
                };
                for b in x.to_le_bytes() {
                    if v.len() < n {
                        v.push((32 + b % 95) as char);
                    }
                }
            }
            v
        }
        2 => {
            let mut v = String::new();
            let p = s.us(1, 5);
            let pat: Vec<char> = (0..p).map(|_| gen_char(s)).collect();
            let mut i = 0;
            while v.len() + pat[i % p].len_utf8() <= n {
                v.push(pat[i % p]);
                i += 1;
            }
            v
        }
        _ => {
            let mut v = String::new();
            loop {
                let c = gen_char(s);
                if v.len() + c.len_utf8() > n.min(200) {
                    break;
                }
                v.push(c);
            }
            v
        }
    }
}

/// Lengths in an arithmetic progression: a run of the length stream, with steps on both sides
/// of what a run header can hold.
#[derive(Default, Clone, Copy)]
struct LenProg {
    cur: i64,
    delta: i64,
    turn: i64,
}

impl LenProg {
    fn new(s: &mut Src) -> LenProg {
        let delta = match s.weighted(&[4, 3, 1]) {
            0 => *s.pick(&[127i64, 128, -128, -129, 129, -127, 126, -130]),
            1 => s.range(0, 40) as i64 - 20,
            _ => s.range(0, 1200) as i64 - 600,
        };
        let turn = s.range(3, 8) as i64;
        let base = s.range(0, 20) as i64;
        let cur = if delta < 0 { base - delta * (turn - 1) } else { base };
        LenProg { cur, delta, turn }
    }
    fn next(&mut self) -> usize {
        let out = self.cur;
        let n = self.cur + self.delta;
        // Turn round before the lengths become negative or long.
        if n < 0 || n > 20 + self.turn * self.delta.abs().max(1) {
            self.delta = -self.delta;
            self.cur = (out + self.delta).max(0);
        } else {
            self.cur = n;
        }
        out as usize
    }
}

pub struct ColGen<'a> {
    ty: &'a Ty,
    nul: NullSeq,
    st: St,
    kids: Vec<ColGen<'a>>,
    hint: usize,
}

#[derive(Clone, Copy)]
pub struct RowOpts {
    pub nulls: bool,
    /// Compression block size, so that value lengths straddle blocks.
    pub hint: usize,
    /// Decimals over the full 128-bit range rather than the declared precision.
    pub full_dec: bool,
}

impl<'a> ColGen<'a> {
    pub fn new(ty: &'a Ty, s: &mut Src, o: RowOpts) -> ColGen<'a> {
        let st = match ty {
            Ty::Bool => St::Bool { left: 0, mode: 0, cur: false },
            Ty::Short => St::Int(IntSeq::new(i16::MIN as i64, i16::MAX as i64)),
            Ty::Int | Ty::Date => St::Int(IntSeq::new(i32::MIN as i64, i32::MAX as i64)),
            Ty::Long => St::Int(IntSeq::new(i64::MIN, i64::MAX)),
            Ty::Float | Ty::Double => St::F { left: 0, cur: 0 },
            Ty::Ts => {
                // The second: where the milliseconds of the statistics leave 64 bits.
                let (lo, hi) = match s.below(6) {
                    0 => (i64::MIN, i64::MAX),
                    1 => (TS_LO, TS_HI),
                    _ => (-3_000_000_000, 3_000_000_000),
                };
                St::Ts { sec: IntSeq::new(lo, hi), nan: NanoSeq::new() }
            }
            Ty::Dec(..) => St::Dec { left: 0, mode: if o.full_dec { 2 } else { 0 }, cur: 0, delta: 0 },
            Ty::Str | Ty::Char(_) | Ty::VarChar(_) => St::Str { left: 0, mode: 0, cur: String::new(), n: 0, prog: LenProg::default() },
            Ty::Bin => St::Bin { left: 0, mode: 0, cur: Vec::new(), prog: LenProg::default() },
            Ty::Struct(_) => St::Struct,
            Ty::List(_) | Ty::Map(..) => St::Len { left: 0, mode: 0, cur: 0, prog: LenProg::default() },
            Ty::Union(_) => St::Tag { left: 0, mode: 0, cur: 0 },
        };
        let nul = NullSeq::new(s, o.nulls);
        let kids = ty.children().into_iter().map(|c| ColGen::new(c, s, o)).collect();
        ColGen { ty, nul, st, kids, hint: o.hint }
    }

    pub fn next(&mut self, s: &mut Src, bud: &mut Budget) -> Val {
        bud.vals -= 1;
        if self.nul.next(s) {
            return Val::Null;
        }
        match &mut self.st {
            St::Int(q) => Val::Int(q.next(s)),
            St::Bool { left, mode, cur } => {
                if *left == 0 {
                    *left = if s.chance(1, 4) { 8 * seg_len(s) } else { seg_len(s) };
                    *mode = s.weighted(&[2, 3, 1]);
                    *cur = s.chance(1, 2);
                }
                *left -= 1;
                let out = *cur;
                match *mode {
                    0 => {}
                    1 => *cur = s.chance(1, 2),
                    _ => *cur = !*cur,
                }
                Val::Bool(out)
            }
            St::F { left, cur } => {
                let wide = matches!(self.ty, Ty::Double);
                if *left == 0 {
                    *left = if s.chance(1, 4) { seg_len(s) } else { 1 };
                    *cur = gen_float(s, wide);
                }
                *left -= 1;
                if wide {
                    Val::F64(*cur)
                } else {
                    Val::F32(*cur as u32)
                }
            }
            St::Ts { sec, nan } => Val::Ts(sec.next(s), nan.next(s)),
            St::Dec { left, mode, cur, delta } => {
                let p = if let Ty::Dec(p, _) = self.ty { *p } else { 38 };
                if *left == 0 {
                    *left = seg_len(s);
                    let full = *mode >= 2;
                    *mode = (if full { 2 } else { 0 }) + s.below(2) as usize;
                    *delta = s.range(0, 20) as i128 - 10;
                    *cur = if full && s.chance(1, 2) {
                        if s.chance(1, 5) {
                            *s.pick(&[i128::MAX, i128::MIN, i128::MIN + 1, i128::MAX - 1, 1i128 << 126, -(1i128 << 126)])
                        } else {
                            gen_bits(s, 127)
                        }
                    } else {
                        gen_dec(s, p)
                    };
                }
                *left -= 1;
                let out = *cur;
                let full = *mode >= 2;
                if *mode % 2 == 0 {
                    *cur = if full && s.chance(1, 2) { gen_bits(s, 127) } else { gen_dec(s, p) };
                } else {
                    let n = cur.wrapping_add(*delta);
                    *cur = if !full && (n > dec_limit(p) || n < -dec_limit(p)) { 0 } else { n };
                }
                Val::Dec(out)
            }
            St::Str { left, mode, cur, n, prog } => {
                let maxc = match self.ty {
                    Ty::Char(m) | Ty::VarChar(m) => *m as usize,
                    _ => usize::MAX,
                };
                if *left == 0 {
                    *left = seg_len(s);
                    *mode = s.weighted(&[8, 4, 4, 1]);
                    let mut l = gen_len(s, self.hint, bud);
                    *n = 0;
                    if *mode == 3 {
                        *prog = LenProg::new(s);
                        *left = (*left).max(4);
                        l = prog.next();
                    }
                    *cur = gen_string(s, l);
                }
                *left -= 1;
                let mut out = match *mode {
                    2 => {
                        *n += 1;
                        format!("{}{}", if cur.len() > 12 { "row " } else { cur.as_str() }, *n / 3)
                    }
                    _ => cur.clone(),
                };
                if *mode == 0 {
                    let l = gen_len(s, self.hint, bud);
                    *cur = gen_string(s, l);
                } else if *mode == 3 {
                    *cur = "p".repeat(prog.next());
                }
                if out.chars().count() > maxc {
                    out = out.chars().take(maxc).collect();
                }
                if out.len() as i64 > bud.bytes {
                    out.clear();
                }
                bud.bytes -= out.len() as i64;
                Val::Str(out)
            }
            St::Bin { left, mode, cur, prog } => {
                if *left == 0 {
                    *left = seg_len(s);
                    *mode = s.weighted(&[6, 4, 1]);
                    let mut l = gen_len(s, self.hint, bud);
                    if *mode == 2 {
                        *prog = LenProg::new(s);
                        *left = (*left).max(4);
                        l = prog.next();
                    }
                    *cur = gen_bytes(s, l);
                }
                *left -= 1;
                let mut out = cur.clone();
                if *mode == 0 {
                    let l = gen_len(s, self.hint, bud);
                    *cur = gen_bytes(s, l);
                } else if *mode == 2 {
                    *cur = gen_bytes(s, prog.next());
                }
                if out.len() as i64 > bud.bytes {
                    out.clear();
                }
                bud.bytes -= out.len() as i64;
                Val::Bin(out)
            }
            St::Struct => Val::Struct(self.kids.iter_mut().map(|k| k.next(s, bud)).collect()),
            St::Len { left, mode, cur, prog } => {
                if *left == 0 {
                    *left = seg_len(s);
                    *mode = s.weighted(&[9, 6, 1]);
                    *cur = gen_list_len(s);
                    if *mode == 2 {
                        *prog = LenProg::new(s);
                        *left = (*left).max(4);
                        *cur = prog.next() as u64;
                    }
                }
                *left -= 1;
                let mut n = *cur;
                if *mode == 0 {
                    *cur = gen_list_len(s);
                } else if *mode == 2 {
                    *cur = prog.next() as u64;
                }
                n = n.min(bud.vals.max(0) as u64);
                if self.kids.len() == 1 {
                    let k = &mut self.kids[0];
                    Val::List((0..n).map(|_| k.next(s, bud)).collect())
                } else {
                    let (a, b) = self.kids.split_at_mut(1);
                    Val::Map(
                        (0..n)
                            .map(|_| {
                                let k = a[0].next(s, bud);
                                (k, b[0].next(s, bud))
                            })
                            .collect(),
                    )
                }
            }
            St::Tag { left, mode, cur } => {
                let n = self.kids.len();
                if n == 0 {
                    return Val::Null;
                }
                if *left == 0 {
                    *left = seg_len(s);
                    *mode = s.weighted(&[3, 2]);
                    *cur = s.below(n as u64) as usize;
                }
                *left -= 1;
                let t = *cur;
                if *mode == 0 {
                    *cur = s.below(n as u64) as usize;
                }
                Val::Union(t, Box::new(self.kids[t].next(s, bud)))
            }
        }
    }
}

fn gen_list_len(s: &mut Src) -> u64 {
    match s.weighted(&[5, 4, 1, 1]) {
        0 => s.below(3),
        1 => s.below(7),
        2 => s.below(40),
        _ if s.chance(1, 25) => s.range(65_000, 70_000),
        _ => s.range(120, 270),
    }
}

#[derive(Clone, Copy)]
pub struct CaseOpts {
    pub max_vals: i64,
    pub max_bytes: i64,
    pub max_batches: usize,
    pub nulls: bool,
    pub full_dec: bool,
    pub big: bool,
}

impl Default for CaseOpts {
    fn default() -> Self {
        CaseOpts { max_vals: 6000, max_bytes: 60000, max_batches: 7, nulls: true, full_dec: false, big: false }
    }
}

/// Total value budget of a case: mostly small, sometimes up to the maximum.
pub fn gen_budget(s: &mut Src, o: &CaseOpts) -> Budget {
    let v = match s.weighted(&[25, 40, 25, 10]) {
        0 => s.range(0, 40) as i64,
        1 => s.range(0, 600) as i64,
        2 => s.range(100, 3000) as i64,
        _ if o.max_vals >= 4000 && s.chance(1, 60) => {
            // now and then enough for the default row index stride and 16-bit counts
            let vals = if s.chance(1, 8) { s.range(200_000, 1_200_000) } else { s.range(12_000, 90_000) };
            return Budget { vals: vals as i64, bytes: o.max_bytes, big: o.big };
        }
        _ => s.range(1000, o.max_vals.max(1001) as u64) as i64,
    };
    Budget { vals: v.min(o.max_vals), bytes: o.max_bytes, big: o.big }
}

pub fn gen_batches(s: &mut Src, ty: &Ty, hint: usize, o: &CaseOpts) -> Vec<Vec<Val>> {
    let mut bud = gen_budget(s, o);
    let nb = if s.chance(1, 25) {
        0
    } else if o.max_batches >= 20 {
        o.max_batches
    } else {
        s.us(1, o.max_batches.max(1))
    };
    let ro = RowOpts { nulls: o.nulls, hint, full_dec: o.full_dec };
    let mut g = ColGen::new(ty, s, ro);
    let mut out = Vec::new();
    for i in 0..nb {
        let left = (nb - i) as i64;
        let mut allot = if left == 1 { bud.vals } else { bud.vals * 2 / (left + 1) };
        if s.chance(1, 8) {
            // empty or tiny batch
            allot = s.below(3) as i64;
        } else if nb < 20 && s.chance(1, 8) {
            allot = bud.vals;
        } else if nb >= 20 {
            allot = allot.min(s.range(1, 60) as i64);
        }
        let mut rows = Vec::new();
        let stop = bud.vals - allot;
        while bud.vals > stop && bud.vals > 0 {
            rows.push(g.next(s, &mut bud));
        }
        out.push(rows);
    }
    out
}

/// Schemas of unusual shape: very wide or very deep.
pub fn gen_unusual_schema(s: &mut Src) -> Ty {
    match s.below(3) {
        0 => {
            let n = s.us(20, 300);
            Ty::Struct((0..n).map(|i| (format!("f{}", i), gen_leaf_ty(s))).collect())
        }
        1 => {
            let n = if s.chance(1, 3) { *s.pick(&[127usize, 128, 129, 255, 256]) } else { s.us(5, 256) };
            let u = Ty::Union((0..n).map(|_| gen_leaf_ty(s)).collect());
            match s.below(4) {
                0 | 1 => u,
                2 => Ty::Struct(vec![("u".to_string(), u), ("k".to_string(), Ty::Long)]),
                _ => Ty::List(Box::new(u)),
            }
        }
        _ => {
            let mut t = gen_leaf_ty(s);
            for _ in 0..s.us(6, 24) {
                t = match s.below(6) {
                    0 | 1 => Ty::Struct(vec![("d".to_string(), t)]),
                    2 => Ty::Struct(vec![("l".to_string(), gen_leaf_ty(s)), ("d".to_string(), t)]),
                    3 => Ty::Union(vec![t]),
                    4 => Ty::Map(Box::new(Ty::Long), Box::new(t)),
                    _ => Ty::List(Box::new(t)),
                };
            }
            t
        }
    }
}

pub fn gen_case(s: &mut Src, so: SchemaOpts, mut co: CaseOpts) -> Case {
    let mut cfg = gen_cfg(s);
    let mode = if co.max_batches >= 7 { s.weighted(&[93, 4, 3]) } else { s.weighted(&[96, 4]) };
    let ty = if mode == 1 {
        // every stream has a buffer of the block size, and a context per block
        match &mut cfg.comp {
            Comp::Snappy(Some(b)) => *b = (*b).min(1 << 18),
            Comp::Zstd(Some(b), _) => *b = (*b).clamp(256, 1 << 18),
            _ => {}
        }
        co.max_vals = co.max_vals.min(3000);
        gen_unusual_schema(s)
    } else {
        gen_schema(s, so)
    };
    let ty = if co.max_bytes >= 30_000 && s.chance(1, 1000) { big_values(s, ty, &mut cfg, &mut co) } else { ty };
    if mode == 2 {
        // many small stripes
        let n = if matches!(cfg.comp, Comp::Zstd(..)) { 80 } else { 300 };
        co.max_batches = if co.max_bytes >= 30_000 && s.chance(1, 10) { s.us(n, 5 * n) } else { s.us(20, n) };
        cfg.stripe = Some(if s.chance(1, 2) { 0 } else { s.us(1, 100) });
    }
    fit_block(&ty, &mut cfg);
    let co = limit_for(&cfg, co);
    let batches = gen_batches(s, &ty, cfg.comp.block().max(1), &co);
    Case { ty, cfg, batches }
}

/// Tiny zstd blocks cost a compression context per block: not with long field names.
pub fn fit_block(ty: &Ty, cfg: &mut Cfg) {
    let names = |t: &&Ty| match t {
        Ty::Struct(f) => f.iter().map(|x| x.0.len()).sum(),
        _ => 0,
    };
    let total: usize = ty.preorder().iter().map(names).sum();
    if let Comp::Zstd(Some(b), _) = &mut cfg.comp {
        *b = (*b).max(total / 200);
    }
}

/// Strings or byte strings of megabytes: streams of more than 2^20, 2^21, 2^22, 2^23 or 2^24 bytes.
pub fn big_values(s: &mut Src, ty: Ty, cfg: &mut Cfg, co: &mut CaseOpts) -> Ty {
    let block = Some(*s.pick(&[262144usize, 4096, 20000, 65536, 1 << 20, 0x7fffff]));
    match &mut cfg.comp {
        Comp::None => {}
        Comp::Snappy(b) => *b = block,
        Comp::Zstd(b, l) => {
            *b = block;
            *l = l.map(|l| l.min(3));
        }
    }
    co.big = true;
    co.max_bytes = if s.chance(1, 8) { 40_000_000 } else { 9_000_000 };
    co.max_vals = co.max_vals.min(3000);
    let leaf = s.pick(&[Ty::Str, Ty::Bin]).clone();
    let has = |t: &Ty| matches!(t, Ty::Str | Ty::Bin | Ty::VarChar(_) | Ty::Char(_));
    if has(&ty) {
        return ty;
    }
    match s.below(4) {
        0 | 1 => Ty::Struct(vec![("b".to_string(), leaf), ("x".to_string(), gen_leaf_ty(s))]),
        2 => Ty::List(Box::new(leaf)),
        _ => Ty::Struct(vec![("x".to_string(), ty), ("b".to_string(), leaf)]),
    }
}

/// Tiny zstd blocks cost a compression context per block: keep those cases small.
pub fn limit_for(cfg: &Cfg, mut co: CaseOpts) -> CaseOpts {
    match cfg.comp {
        Comp::Zstd(Some(b), _) if b < 64 => {
            co.max_vals = co.max_vals.min(400);
            co.max_bytes = co.max_bytes.min(1500);
        }
        Comp::Zstd(Some(b), _) if b < 1000 => {
            co.max_vals = co.max_vals.min(3000);
            co.max_bytes = co.max_bytes.min(20000);
        }
        _ => {}
    }
    if let Comp::Zstd(_, Some(l)) = cfg.comp {
        if l > 6 {
            co.max_vals = co.max_vals.min(1500);
            co.max_bytes = co.max_bytes.min(10000);
        }
    }
    co
}

/// A flat schema of one leaf type (optionally inside a struct with an independent companion).
pub fn wrap_leaf(s: &mut Src, leaf: Ty) -> Ty {
    match s.weighted(&[4, 4, 2]) {
        0 => leaf,
        1 => Ty::Struct(vec![("v".to_string(), leaf)]),
        _ => Ty::Struct(vec![("k".to_string(), Ty::Bool), ("v".to_string(), leaf)]),
    }
}
