//! Decoders for the ORC run-length encodings (version 1), written from the specification.

/// Byte run-length encoding.
pub struct ByteRle<'a> {
    b: &'a [u8],
    pub p: usize,
    lit: usize,
    run: usize,
    val: u8,
}

impl<'a> ByteRle<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        ByteRle { b, p: 0, lit: 0, run: 0, val: 0 }
    }
    pub fn next(&mut self) -> Result<u8, String> {
        if self.lit == 0 && self.run == 0 {
            let c = *self.b.get(self.p).ok_or("byte RLE: out of data")?;
            self.p += 1;
            if c < 128 {
                self.run = c as usize + 3;
                self.val = *self.b.get(self.p).ok_or("byte RLE: run without value")?;
                self.p += 1;
            } else {
                self.lit = 256 - c as usize;
            }
        }
        if self.run > 0 {
            self.run -= 1;
            Ok(self.val)
        } else {
            let v = *self.b.get(self.p).ok_or("byte RLE: truncated literals")?;
            self.p += 1;
            self.lit -= 1;
            Ok(v)
        }
    }
    pub fn at_end(&self) -> bool {
        self.p == self.b.len() && self.lit == 0 && self.run == 0
    }
}

/// Bits, most significant first, over byte RLE.
pub struct BitRle<'a> {
    pub inner: ByteRle<'a>,
    cur: u8,
    left: u8,
}

impl<'a> BitRle<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        BitRle { inner: ByteRle::new(b), cur: 0, left: 0 }
    }
    pub fn next(&mut self) -> Result<bool, String> {
        if self.left == 0 {
            self.cur = self.inner.next()?;
            self.left = 8;
        }
        self.left -= 1;
        Ok(self.cur >> self.left & 1 == 1)
    }
    /// Everything consumed but for padding bits of the last byte.
    pub fn at_end(&self) -> bool {
        self.inner.at_end()
    }
}

pub fn varint128(b: &[u8], p: &mut usize) -> Result<u128, String> {
    let mut v: u128 = 0;
    let mut shift = 0;
    loop {
        let x = *b.get(*p).ok_or("varint: truncated")?;
        *p += 1;
        let d = (x & 0x7f) as u128;
        if shift >= 128 || (shift > 121 && d >> (128 - shift) != 0) {
            return Err("varint: more than 128 bits".into());
        }
        v |= d << shift;
        if x < 0x80 {
            return Ok(v);
        }
        shift += 7;
    }
}

pub fn unzigzag128(v: u128) -> i128 {
    ((v >> 1) as i128) ^ -((v & 1) as i128)
}

/// Integer run-length encoding version 1. Unsigned values are returned as their 64-bit pattern.
pub struct IntRle<'a> {
    b: &'a [u8],
    pub p: usize,
    signed: bool,
    lit: usize,
    run: usize,
    val: i64,
    delta: i64,
}

impl<'a> IntRle<'a> {
    pub fn new(b: &'a [u8], signed: bool) -> Self {
        IntRle { b, p: 0, signed, lit: 0, run: 0, val: 0, delta: 0 }
    }
    fn base(&mut self) -> Result<i64, String> {
        let v = varint128(self.b, &mut self.p)?;
        if v > u64::MAX as u128 {
            return Err("integer RLE: varint of more than 64 bits".into());
        }
        Ok(if self.signed { crate::pb::zigzag(v as u64) } else { v as u64 as i64 })
    }
    pub fn next(&mut self) -> Result<i64, String> {
        if self.lit == 0 && self.run == 0 {
            let c = *self.b.get(self.p).ok_or("integer RLE: out of data")?;
            self.p += 1;
            if c < 128 {
                self.run = c as usize + 3;
                self.delta = *self.b.get(self.p).ok_or("integer RLE: run without delta")? as i8 as i64;
                self.p += 1;
                self.val = self.base()?;
            } else {
                self.lit = 256 - c as usize;
            }
        }
        if self.run > 0 {
            self.run -= 1;
            let v = self.val;
            self.val = self.val.wrapping_add(self.delta);
            Ok(v)
        } else {
            self.lit -= 1;
            self.base()
        }
    }
    pub fn at_end(&self) -> bool {
        self.p == self.b.len() && self.lit == 0 && self.run == 0
    }
}

/// Nanoseconds from the SECONDARY stream of a timestamp column.
pub fn nanos(v: u64) -> u64 {
    let z = v & 7;
    let mut r = v >> 3;
    if z != 0 {
        for _ in 0..=z {
            r = r.wrapping_mul(10);
        }
    }
    r
}

#[cfg(test)]
mod tests {
    use super::*;
    fn ints(b: &[u8], signed: bool, n: usize) -> Vec<i64> {
        let mut d = IntRle::new(b, signed);
        let v = (0..n).map(|_| d.next().unwrap()).collect();
        assert!(d.at_end());
        v
    }
    // Examples from the ORC specification.
    #[test]
    fn spec_examples() {
        assert_eq!(ints(&[0x61, 0x00, 0x07], false, 100), vec![7; 100]);
        assert_eq!(ints(&[0x61, 0xff, 0x64], false, 100), (1..=100).rev().collect::<Vec<i64>>());
        assert_eq!(ints(&[0xfb, 0x02, 0x03, 0x04, 0x07, 0x0b], false, 5), vec![2, 3, 4, 7, 11]);
        let mut d = ByteRle::new(&[0x61, 0x00]);
        for _ in 0..100 {
            assert_eq!(d.next(), Ok(0));
        }
        assert!(d.at_end());
        let mut d = ByteRle::new(&[0xfe, 0x44, 0x45]);
        assert_eq!((d.next(), d.next()), (Ok(0x44), Ok(0x45)));
        assert!(d.at_end());
        let mut d = BitRle::new(&[0xff, 0x80]);
        assert_eq!((0..8).map(|_| d.next().unwrap()).collect::<Vec<_>>(), vec![true, false, false, false, false, false, false, false]);
        assert_eq!(nanos(0x0a), 1000);
        assert_eq!(nanos(0x0b), 10000 / 1 * 1);
        assert_eq!(nanos(8), 1);
    }
    #[test]
    fn varints() {
        for (v, b) in [(0u128, vec![0u8]), (1, vec![1]), (127, vec![0x7f]), (128, vec![0x80, 1]), (16384, vec![0x80, 0x80, 1])] {
            let mut p = 0;
            assert_eq!(varint128(&b, &mut p), Ok(v));
            assert_eq!(p, b.len());
        }
        assert_eq!(unzigzag128(1), -1);
        assert_eq!(unzigzag128(u128::MAX), i128::MIN);
    }
}
