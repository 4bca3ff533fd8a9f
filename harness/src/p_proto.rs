//! C22: the public protobuf message types against an independent encoder, decoder and model.

use crate::engine::{guarded, Info, Src};
use crate::for_message;
use crate::gen::gen_char;
use crate::pb::{fields, varint, zigzag, Wire};
use crate::proto_table::MSGS;
use protobuf::{Message, ProtobufEnum};
use std::collections::BTreeMap;

pub enum Kind {
    U32,
    U64,
    S32,
    S64,
    Bool,
    Dbl,
    Fx64,
    Str,
    Bytes,
    Enum(&'static [(&'static str, i32)]),
    Msg(usize),
}

pub struct FieldDesc {
    pub num: u32,
    pub name: &'static str,
    pub kind: Kind,
    pub rep: bool,
    pub packed: bool,
}

pub struct MsgDesc {
    pub name: &'static str,
    pub fields: &'static [FieldDesc],
}

/// Signed and boolean values and enums are kept as their two's complement in U, doubles as bits.
#[derive(Clone, Debug, PartialEq)]
pub enum PV {
    U(u64),
    S(String),
    B(Vec<u8>),
    M(Dyn),
}

impl PV {
    pub fn u(&self) -> u64 {
        if let PV::U(x) = self { *x } else { panic!("harness: not a number") }
    }
    pub fn s(&self) -> &str {
        if let PV::S(x) = self { x } else { panic!("harness: not a string") }
    }
    pub fn b(&self) -> &[u8] {
        if let PV::B(x) = self { x } else { panic!("harness: not bytes") }
    }
    pub fn m(&self) -> &Dyn {
        if let PV::M(x) = self { x } else { panic!("harness: not a message") }
    }
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Unk {
    pub varint: Vec<u64>,
    pub f64: Vec<u64>,
    pub f32: Vec<u32>,
    pub len: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Dyn {
    pub f: BTreeMap<u32, Vec<PV>>,
    pub unknown: BTreeMap<u32, Unk>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FieldOp {
    Set,
    Get,
    Has,
    Clear,
    Mut,
    Take,
}

pub trait Typed: Message + PartialEq + Clone + Default {
    const IDX: usize;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV>;
}

pub fn to_dyn<T: Typed>(m: &mut T) -> Dyn {
    let mut d = Dyn::default();
    for f in MSGS[T::IDX].fields {
        if m.apply(f.num, FieldOp::Has, &[])[0].u() != 0 {
            d.f.insert(f.num, m.apply(f.num, FieldOp::Get, &[]));
        }
    }
    let u = m.get_unknown_fields();
    for (num, v) in u.iter() {
        let e = d.unknown.entry(num).or_default();
        e.varint.extend(&v.varint);
        e.f64.extend(&v.fixed64);
        e.f32.extend(&v.fixed32);
        e.len.extend(v.length_delimited.iter().cloned());
    }
    d
}

pub fn from_dyn<T: Typed>(d: &Dyn) -> T {
    let mut m = T::new();
    for (n, v) in &d.f {
        m.apply(*n, FieldOp::Set, v);
    }
    let u = m.mut_unknown_fields();
    for (n, e) in &d.unknown {
        for x in &e.varint {
            u.add_varint(*n, *x);
        }
        for x in &e.f64 {
            u.add_fixed64(*n, *x);
        }
        for x in &e.f32 {
            u.add_fixed32(*n, *x);
        }
        for x in &e.len {
            u.add_length_delimited(*n, x.clone());
        }
    }
    m
}

pub fn default_pv(k: &Kind) -> PV {
    match k {
        Kind::Str => PV::S(String::new()),
        Kind::Bytes => PV::B(vec![]),
        Kind::Msg(_) => PV::M(Dyn::default()),
        Kind::Enum(v) => PV::U(v[0].1 as u64),
        _ => PV::U(0),
    }
}

fn gen_u64(s: &mut Src) -> u64 {
    match s.weighted(&[4, 3, 2]) {
        0 => s.below(300),
        1 => {
            let b = s.below(64);
            let d = s.below(3);
            (1u64 << b).wrapping_add(d).wrapping_sub(1)
        }
        _ => s.bits(),
    }
}

fn gen_pv(s: &mut Src, k: &Kind, depth: usize, unknown: bool) -> PV {
    match k {
        Kind::U32 => PV::U(gen_u64(s) as u32 as u64),
        Kind::U64 | Kind::Fx64 => PV::U(gen_u64(s)),
        Kind::S32 => PV::U(if s.chance(1, 2) { gen_u64(s) as i32 } else { (gen_u64(s) as i32).wrapping_neg() } as i64 as u64),
        Kind::S64 => PV::U(if s.chance(1, 2) { gen_u64(s) } else { gen_u64(s).wrapping_neg() }),
        Kind::Bool => PV::U(s.below(2)),
        Kind::Dbl => PV::U(match s.below(3) {
            0 => (s.below(100) as f64 * 0.5).to_bits(),
            1 => *s.pick(&[0u64, 1 << 63, f64::NAN.to_bits(), f64::INFINITY.to_bits(), f64::MIN.to_bits(), 1]),
            _ => s.bits(),
        }),
        Kind::Str => {
            let n = if s.chance(1, 20) { s.us(100, 300) } else { s.us(0, 9) };
            PV::S((0..n).map(|_| gen_char(s)).collect())
        }
        Kind::Bytes => {
            let n = if s.chance(1, 20) { s.us(100, 300) } else { s.us(0, 9) };
            PV::B((0..n).map(|_| s.below(256) as u8).collect())
        }
        Kind::Enum(v) => PV::U(s.pick(v).1 as u64),
        Kind::Msg(i) => PV::M(gen_dyn(s, *i, depth + 1, unknown)),
    }
}

pub fn gen_vals(s: &mut Src, f: &FieldDesc, depth: usize, unknown: bool) -> Vec<PV> {
    let n = if !f.rep {
        1
    } else if matches!(f.kind, Kind::Msg(_)) {
        s.us(1, if depth > 1 { 2 } else { 4 })
    } else if s.chance(1, 15) {
        s.us(100, 200)
    } else {
        s.us(1, 5)
    };
    (0..n).map(|_| gen_pv(s, &f.kind, depth, unknown)).collect()
}

pub fn gen_dyn(s: &mut Src, idx: usize, depth: usize, unknown: bool) -> Dyn {
    let mut d = Dyn::default();
    let dense = s.weighted(&[3, 3, 1]);
    for f in MSGS[idx].fields {
        let on = match dense {
            0 => s.chance(1, 2),
            1 => s.chance(9, 10),
            _ => s.chance(1, 8),
        };
        if on {
            d.f.insert(f.num, gen_vals(s, f, depth, unknown));
        }
    }
    if unknown && s.chance(1, 4) {
        for _ in 0..s.us(1, 3) {
            let n = match s.below(3) {
                0 => s.range(20, 200) as u32,
                1 => *s.pick(&[12u32, 15, 16, 17, 2047, 2048, 7999, 8001, 0x1fff_ffff]),
                _ => s.range(12, 536_870_911) as u32,
            };
            if MSGS[idx].fields.iter().any(|f| f.num == n) {
                continue;
            }
            let e = d.unknown.entry(n).or_default();
            for _ in 0..s.us(1, 2) {
                match s.below(4) {
                    0 => e.varint.push(gen_u64(s)),
                    1 => e.f64.push(gen_u64(s)),
                    2 => e.f32.push(gen_u64(s) as u32),
                    _ => {
                        let n = s.us(0, 20);
                        e.len.push((0..n).map(|_| s.below(256) as u8).collect())
                    }
                }
            }
        }
        // a value of an enum that this version of the schema does not know
        for f in MSGS[idx].fields {
            if matches!(f.kind, Kind::Enum(_)) && s.chance(1, 3) {
                d.unknown.entry(f.num).or_default().varint.push(s.range(100, 1000));
            }
        }
    }
    d
}

fn put_varint(mut x: u64, out: &mut Vec<u8>, long: bool) {
    let start = out.len();
    while x >= 0x80 {
        out.push(x as u8 | 0x80);
        x >>= 7;
    }
    out.push(x as u8);
    if long && out.len() - start < 9 {
        // a longer spelling of the same number
        let n = out.len();
        out[n - 1] |= 0x80;
        out.push(0);
    }
}

fn put_tag(num: u32, wire: u64, out: &mut Vec<u8>) {
    put_varint((num as u64) << 3 | wire, out, false);
}

fn put_scalar(k: &Kind, v: u64, out: &mut Vec<u8>, long: bool) {
    match k {
        Kind::Dbl | Kind::Fx64 => out.extend_from_slice(&v.to_le_bytes()),
        Kind::S32 => put_varint((((v as i32) << 1) ^ ((v as i32) >> 31)) as u32 as u64, out, long),
        Kind::S64 => put_varint((((v as i64) << 1) ^ ((v as i64) >> 63)) as u64, out, long),
        _ => put_varint(v, out, long),
    }
}

fn wire_of(k: &Kind) -> u64 {
    match k {
        Kind::Dbl | Kind::Fx64 => 1,
        Kind::Str | Kind::Bytes | Kind::Msg(_) => 2,
        _ => 0,
    }
}

/// Encode with every freedom the wire format gives: field order, packing, several spellings.
pub fn encode(s: &mut Src, idx: usize, d: &Dyn, free: bool) -> Vec<u8> {
    // One queue of encoded pieces per field: order inside a queue is kept.
    let mut queues: Vec<Vec<Vec<u8>>> = Vec::new();
    for (num, vals) in &d.f {
        let f = MSGS[idx].fields.iter().find(|f| f.num == *num).unwrap();
        let mut q = Vec::new();
        let w = wire_of(&f.kind);
        if f.rep && w != 2 {
            let mut i = 0;
            let packed = if free { s.chance(1, 2) } else { f.packed };
            while i < vals.len() {
                let n = if free && s.chance(1, 3) { s.us(1, vals.len() - i) } else { vals.len() - i };
                let mut o = Vec::new();
                if packed {
                    let mut body = Vec::new();
                    for v in &vals[i..i + n] {
                        put_scalar(&f.kind, v.u(), &mut body, free && s.chance(1, 8));
                    }
                    put_tag(*num, 2, &mut o);
                    put_varint(body.len() as u64, &mut o, free && s.chance(1, 8));
                    o.extend(body);
                } else {
                    for v in &vals[i..i + n] {
                        put_tag(*num, w, &mut o);
                        put_scalar(&f.kind, v.u(), &mut o, free && s.chance(1, 8));
                    }
                }
                q.push(o);
                i += n;
            }
        } else {
            for v in vals {
                let bodies: Vec<Vec<u8>> = match v {
                    PV::S(x) => vec![x.as_bytes().to_vec()],
                    PV::B(x) => vec![x.clone()],
                    PV::M(x) => {
                        let Kind::Msg(sub) = f.kind else { unreachable!() };
vec![encode(s, sub, x, free)]
                    }
                    PV::U(x) => {
                        let mut o = Vec::new();
                        if free && s.chance(1, 6) {
                            // an earlier value, overridden by the next
                            let other = gen_pv(s, &f.kind, 5, false);
                            put_tag(*num, w, &mut o);
                            put_scalar(&f.kind, other.u(), &mut o, false);
                        }
                        put_tag(*num, w, &mut o);
                        put_scalar(&f.kind, *x, &mut o, free && s.chance(1, 8));
                        q.push(o);
                        vec![]
                    }
                };
                for b in bodies {
                    let mut o = Vec::new();
                    put_tag(*num, 2, &mut o);
                    put_varint(b.len() as u64, &mut o, free && s.chance(1, 8));
                    o.extend(b);
                    q.push(o);
                }
            }
        }
        queues.push(q);
    }
    for (num, e) in &d.unknown {
        let mut q: Vec<Vec<u8>> = Vec::new();
        let mut add = |w: u64, body: &[u8]| {
            let mut o = Vec::new();
            put_tag(*num, w, &mut o);
            o.extend_from_slice(body);
            q.push(o);
        };
        for x in &e.varint {
            let mut b = Vec::new();
            put_varint(*x, &mut b, false);
            add(0, &b);
        }
        for x in &e.f64 {
            add(1, &x.to_le_bytes());
        }
        for x in &e.f32 {
            add(5, &x.to_le_bytes());
        }
        for x in &e.len {
            let mut b = Vec::new();
            put_varint(x.len() as u64, &mut b, false);
            b.extend_from_slice(x);
            add(2, &b);
        }
        queues.push(q);
    }
    let mut out = Vec::new();
    for q in queues.iter_mut() {
        q.reverse();
    }
    loop {
        queues.retain(|q| !q.is_empty());
        if queues.is_empty() {
            return out;
        }
        let k = if free { s.below(queues.len() as u64) as usize } else { 0 };
        let p = queues[k].pop().unwrap();
        out.extend(p);
    }
}

fn scalar(k: &Kind, b: &[u8], p: &mut usize) -> Result<u64, String> {
    if wire_of(k) == 1 {
        let x = b.get(*p..*p + 8).ok_or("truncated packed field")?;
        *p += 8;
        return Ok(u64::from_le_bytes(x.try_into().unwrap()));
    }
    norm(k, varint(b, p)?)
}

fn norm(k: &Kind, x: u64) -> Result<u64, String> {
    if x > u32::MAX as u64 && matches!(k, Kind::Bool | Kind::U32 | Kind::S32) {
        UNSPECIFIED.with(|x| x.set(true));
    }
    Ok(match k {
        Kind::U32 => x as u32 as u64,
        Kind::S32 => {
            let y = x as u32;
            (((y >> 1) as i32) ^ -((y & 1) as i32)) as i64 as u64
        }
        Kind::S64 => zigzag(x) as u64,
        Kind::Bool => (x != 0) as u64,
        _ => x,
    })
}

pub fn decode(idx: usize, b: &[u8]) -> Result<Dyn, String> {
    let mut d = Dyn::default();
    decode_into(idx, b, &mut d)?;
    Ok(d)
}

/// Set when the finding bitset-length is listed.
pub static BITSET_LENIENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

thread_local! {
    /// Set by `decode` when it met something that implementations treat differently.
    static UNSPECIFIED: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

fn unspecified() -> bool {
    UNSPECIFIED.with(|x| x.get())
}

thread_local! {
    /// Makes `decode` keep known fields in an unexpected wire type as unknown fields.
    static LAX: std::cell::Cell<bool> = std::cell::Cell::new(false);
}

/// What a parser that keeps known fields in an unexpected wire type as unknown fields reads.
fn decode_lax(idx: usize, b: &[u8]) -> Result<Dyn, String> {
    LAX.with(|x| x.set(true));
    let r = decode(idx, b);
    LAX.with(|x| x.set(false));
    r
}

fn decode_into(idx: usize, b: &[u8], d: &mut Dyn) -> Result<(), String> {
    for (num, w) in fields(b)? {
        let f = match MSGS[idx].fields.iter().find(|f| f.num == num) {
            Some(f) => f,
            None => {
                let e = d.unknown.entry(num).or_default();
                match w {
                    Wire::Varint(x) => e.varint.push(x),
                    Wire::I64(x) => e.f64.push(x),
                    Wire::I32(x) => e.f32.push(x),
                    Wire::Len(x) => e.len.push(x.to_vec()),
                }
                continue;
            }
        };
        let bad = || format!("{}.{}: wire type", MSGS[idx].name, f.name);
        let mut vals = Vec::new();
        match (&f.kind, &w) {
            (Kind::Str, Wire::Len(x)) => vals.push(PV::S(String::from_utf8(x.to_vec()).map_err(|_| "not UTF-8")?)),
            (Kind::Bytes, Wire::Len(x)) => vals.push(PV::B(x.to_vec())),
            (Kind::Msg(sub), Wire::Len(x)) => {
                let mut m = match d.f.get(&num) {
                    Some(v) if !f.rep => {
                        // The protobuf crate replaces where the specification says merge: not judged.
                        UNSPECIFIED.with(|x| x.set(true));
                        v[0].m().clone()
                    }
                    _ => Dyn::default(),
                };
                decode_into(*sub, x, &mut m)?;
                vals.push(PV::M(m));
            }
            (k, Wire::Len(x)) if f.rep && wire_of(k) != 2 => {
                let mut p = 0;
                while p < x.len() {
                    vals.push(PV::U(scalar(k, x, &mut p)?));
                }
            }
            (Kind::Enum(known), Wire::Varint(x)) => {
                if *x > i32::MAX as u64 {
                    // More than the 31 bits of an enum number: implementations differ.
                    UNSPECIFIED.with(|x| x.set(true));
                }
                if known.iter().any(|(_, v)| *v as u64 == *x) {
                    vals.push(PV::U(*x));
                } else {
                    d.unknown.entry(num).or_default().varint.push(*x);
                    continue;
                }
            }
            (k, Wire::Varint(x)) if wire_of(k) == 0 => vals.push(PV::U(norm(k, *x)?)),
            (k, Wire::I64(x)) if wire_of(k) == 1 => vals.push(PV::U(*x)),
            _ if LAX.with(|x| x.get()) => {
                let e = d.unknown.entry(num).or_default();
                match w {
                    Wire::Varint(x) => e.varint.push(x),
                    Wire::I64(x) => e.f64.push(x),
                    Wire::I32(x) => e.f32.push(x),
                    Wire::Len(x) => e.len.push(x.to_vec()),
                }
                continue;
            }
            _ => return Err(bad()),
        }
        if f.rep {
            if !vals.is_empty() {
                d.f.entry(num).or_default().extend(vals);
            }
        } else {
            d.f.insert(num, vals);
        }
    }
    Ok(())
}

fn expect(what: &str, name: &str, got: &Dyn, want: &Dyn) -> Result<(), String> {
    if got != want {
        let mut at = String::new();
        for k in got.f.keys().chain(want.f.keys()) {
            if got.f.get(k) != want.f.get(k) {
                at = format!("field {}: got {:?}, should be {:?}", k, got.f.get(k), want.f.get(k));
                break;
            }
        }
        if at.is_empty() {
            at = format!("unknown fields: got {:?}, should be {:?}", got.unknown, want.unknown);
        }
        return Err(format!("{}: {}: {}", name, what, crate::model::clip(&at, 800)));
    }
    Ok(())
}

fn written<T: Typed>(m: &T, name: &str) -> Result<Vec<u8>, String> {
    let b = m.write_to_bytes().map_err(|e| format!("{}: write_to_bytes: {}", name, e))?;
    if m.compute_size() as usize != b.len() {
        return Err(format!("{}: compute_size {} but {} bytes written", name, m.compute_size(), b.len()));
    }
    let mut v = Vec::new();
    m.write_to_vec(&mut v).map_err(|e| format!("{}: write_to_vec: {}", name, e))?;
    if v != b {
        return Err(format!("{}: write_to_vec and write_to_bytes differ", name));
    }
    let mut w = Vec::new();
    m.write_length_delimited_to_vec(&mut w).map_err(|e| format!("{}: write_length_delimited: {}", name, e))?;
    let mut want = Vec::new();
    put_varint(b.len() as u64, &mut want, false);
    want.extend(&b);
    if w != want {
        return Err(format!("{}: length-delimited form is wrong", name));
    }
    Ok(b)
}

/// Wire order -> same values -> wire.
fn wire<T: Typed>(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let name = MSGS[T::IDX].name;
    let d = gen_dyn(s, T::IDX, 0, true);
    info.desc = crate::model::clip(&format!("{} {:?}", name, d), 600);
    info.nontrivial = !d.f.is_empty();
    info.label_if(!d.unknown.is_empty(), "unknown fields");
    let bytes = encode(s, T::IDX, &d, true);
    // Harness self-check: the two halves of the oracle agree.
    expect("harness decode(encode(x))", name, &decode(T::IDX, &bytes)?, &d)?;
    let mut m: T = protobuf::Message::parse_from_bytes(&bytes).map_err(|e| format!("{}: valid message rejected: {}", name, e))?;
    expect("parsed message", name, &to_dyn(&mut m), &d)?;
    let back = written(&m, name)?;
    expect("parsed and rewritten message", name, &decode(T::IDX, &back)?, &d)?;
    // built through setters
    let mut t: T = from_dyn(&d);
    expect("message built with setters", name, &to_dyn(&mut t), &d)?;
    let b2 = written(&t, name)?;
    expect("written message", name, &decode(T::IDX, &b2)?, &d)?;
    if b2.len() != back.len() {
        return Err(format!("{}: the same message is written in {} and {} bytes", name, b2.len(), back.len()));
    }
    // merging into an existing message
    let e = gen_dyn(s, T::IDX, 1, false);
    let eb = encode(s, T::IDX, &e, true);
    let mut both = decode(T::IDX, &bytes)?;
    decode_into(T::IDX, &eb, &mut both)?;
    m.merge_from_bytes(&eb).map_err(|x| format!("{}: merge: {}", name, x))?;
    if !unspecified() {
        expect("merged message", name, &to_dyn(&mut m), &both)?;
    }
    m.clear();
    expect("cleared message", name, &to_dyn(&mut m), &Dyn::default())?;
    if m.compute_size() != 0 {
        return Err(format!("{}: cleared message has size {}", name, m.compute_size()));
    }
    Ok(())
}

/// Random accessor calls against a map.
fn accessors<T: Typed>(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let desc = &MSGS[T::IDX];
    let mut d = gen_dyn(s, T::IDX, 1, true);
    let mut m: T = from_dyn(&d);
    info.nontrivial = true;
    let n = s.us(1, 25);
    for _ in 0..n {
        let f = s.pick(desc.fields);
        let op = *s.pick(&[FieldOp::Set, FieldOp::Get, FieldOp::Has, FieldOp::Clear, FieldOp::Mut, FieldOp::Take]);
        let vals = gen_vals(s, f, 1, false);
        let cur = d.f.get(&f.num).cloned();
        let want = match op {
            FieldOp::Set => {
                d.f.insert(f.num, vals.clone());
                vec![]
            }
            FieldOp::Mut => {
                if f.rep {
                    d.f.entry(f.num).or_default().extend(vals.clone());
                } else {
                    d.f.insert(f.num, vals.clone());
                }
                vec![]
            }
            FieldOp::Get | FieldOp::Take => {
                if op == FieldOp::Take {
                    d.f.remove(&f.num);
                }
                cur.clone().unwrap_or_else(|| if f.rep { vec![] } else { vec![default_pv(&f.kind)] })
            }
            FieldOp::Has => vec![PV::U(cur.is_some() as u64)],
            FieldOp::Clear => {
                d.f.remove(&f.num);
                vec![]
            }
        };
        info.desc = format!("{} {:?} {}", desc.name, op, f.name);
        let got = m.apply(f.num, op, &vals);
        if got != want {
            return Err(format!("{}.{}: {:?} gives {:?}, should be {:?}", desc.name, f.name, op, got, want));
        }
        expect(&format!("after {:?} of {}", op, f.name), desc.name, &to_dyn(&mut m), &d)?;
        info.sub += 1;
    }
    let b = written(&m, desc.name)?;
    expect("written after accessor calls", desc.name, &decode(T::IDX, &b)?, &d)?;
    expect("clone", desc.name, &to_dyn(&mut m.clone()), &d)?;
    Ok(())
}

/// A varint as lenient parsers read it.
fn lax_varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..10 {
        let x = *b.get(*p)?;
        *p += 1;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x < 0x80 {
            return Some(v);
        }
    }
    None
}

/// True if the bytes may make the parser meet a packed BloomFilter.bitset whose length prefix claims
/// more than 16 MiB that are not there (the recorded finding bitset-length: memory is reserved before
/// the bytes are looked for). Errs on the side of true.
fn bitset_hazard(idx: usize, b: &[u8]) -> bool {
    let mut p = 0;
    while p < b.len() {
        let Some(tag) = lax_varint(b, &mut p) else { return false };
        match tag & 7 {
            0 => {
                if lax_varint(b, &mut p).is_none() {
                    return false;
                }
            }
            1 => p += 8,
            5 => p += 4,
            2 => {
                let Some(l) = lax_varint(b, &mut p) else { return false };
                let rest = &b[p.min(b.len())..];
                let num = (tag as u32) >> 3;
                if l > rest.len() as u64 && l > 16 << 20 && MSGS[idx].name == "BloomFilter" && num == 2 {
                    return true;
                }
                let n = l.min(rest.len() as u64) as usize;
                if let Some(FieldDesc { kind: Kind::Msg(sub), .. }) = MSGS[idx].fields.iter().find(|f| f.num == num) {
                    if bitset_hazard(*sub, &rest[..n]) {
                        return true;
                    }
                }
                p += n;
            }
            _ => {}
        }
    }
    false
}

/// The recorded finding: a length that does not fit any memory panics instead of being rejected.
pub fn bitset_finding() -> Result<(), String> {
    let b = [0x12, 0xf8, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01];
    guarded(|| orc_format::protos::orc_proto::BloomFilter::parse_from_bytes(&b).is_ok()).map(|_| ()).map_err(|p| format!("BloomFilter::parse_from_bytes({:02x?}) panics: {}", b, p))
}

/// Set when the finding nested-length is listed.
pub static NESTED_LENIENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// The bytes as they are read by a parser with the recorded finding nested-length: the length of the
/// last nested message or packed list is cut down to what is there.
fn clamp(idx: usize, b: &[u8]) -> Option<Vec<u8>> {
    let mut p = 0;
    while p < b.len() {
        let tag = varint(b, &mut p).ok()?;
        match tag & 7 {
            0 => {
                varint(b, &mut p).ok()?;
            }
            1 => p += 8,
            5 => p += 4,
            2 => {
                let at = p;
                let l = varint(b, &mut p).ok()?;
                if l <= (b.len() - p) as u64 {
                    p += l as usize;
                    continue;
                }
                let f = MSGS[idx].fields.iter().find(|f| f.num as u64 == tag >> 3)?;
                let rest = match &f.kind {
                    Kind::Msg(sub) => clamp(*sub, &b[p..]).unwrap_or(b[p..].to_vec()),
                    Kind::Str | Kind::Bytes => return None,
                    _ if f.rep => b[p..].to_vec(),
                    _ => return None,
                };
                let mut out = b[..at].to_vec();
                put_varint(rest.len() as u64, &mut out, false);
                out.extend(rest);
                return Some(out);
            }
            _ => return None,
        }
    }
    None
}

/// The recorded finding: a nested message cut short between two of its fields is accepted.
pub fn nested_length_finding() -> Result<(), String> {
    let b = [0x0a, 0x10, 0x08, 0x03];
    match orc_format::protos::orc_proto::RowIndex::parse_from_bytes(&b) {
        Err(_) => Ok(()),
        Ok(m) => Err(format!("RowIndex::parse_from_bytes({:02x?}) gives {:?}", b, m)),
    }
}

/// A message cut short: at the top level, or in a nested message whose length is adjusted.
fn cut(s: &mut Src, idx: usize, b: &[u8]) -> Vec<u8> {
    let fs = fields(b).unwrap_or_default();
    let subs: Vec<(usize, usize)> = fs
        .iter()
        .enumerate()
        .filter_map(|(i, (num, w))| match (MSGS[idx].fields.iter().find(|f| f.num == *num), w) {
            (Some(FieldDesc { kind: Kind::Msg(sub), .. }), Wire::Len(x)) if x.len() > 1 => Some((i, *sub)),
            _ => None,
        })
        .collect();
    if subs.is_empty() || s.chance(1, 3) {
        return b[..s.us(0, b.len())].to_vec();
    }
    let (at, sub) = *s.pick(&subs);
    let mut out = Vec::new();
    for (i, (num, w)) in fs.iter().enumerate() {
        let c;
        let w = match w {
            Wire::Len(x) if i == at => {
                c = cut(s, sub, x);
                Wire::Len(&c)
            }
            w => w.clone(),
        };
        match w {
            Wire::Varint(x) => {
                put_tag(*num, 0, &mut out);
                put_varint(x, &mut out, false);
            }
            Wire::I64(x) => {
                put_tag(*num, 1, &mut out);
                out.extend_from_slice(&x.to_le_bytes());
            }
            Wire::Len(x) => {
                put_tag(*num, 2, &mut out);
                put_varint(x.len() as u64, &mut out, false);
                out.extend_from_slice(x);
            }
            Wire::I32(x) => {
                put_tag(*num, 5, &mut out);
                out.extend_from_slice(&x.to_le_bytes());
            }
        }
    }
    out
}

/// A sink with a capacity, that may fail once in between and go on.
struct Sink {
    got: Vec<u8>,
    fail_at: usize,
    once: bool,
    failed: bool,
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.got.len() + b.len() > self.fail_at && !(self.once && self.failed) {
            self.failed = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no room"));
        }
        self.got.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A source that gives a few bytes at a time and may end in an error.
struct Trickle<'a> {
    b: &'a [u8],
    step: usize,
    fail: bool,
}

impl std::io::Read for Trickle<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        if self.b.is_empty() && self.fail {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "gone"));
        }
        let n = self.step.min(self.b.len()).min(out.len());
        out[..n].copy_from_slice(&self.b[..n]);
        self.b = &self.b[n..];
        Ok(n)
    }
}

/// Messages written to places with and without room for them, and read from slow and failing sources.
fn room<T: Typed>(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let name = MSGS[T::IDX].name;
    let mut d = gen_dyn(s, T::IDX, 0, true);
    if d.f.len() > 1 && s.chance(1, 3) {
        let keep = *s.pick(&d.f.keys().copied().collect::<Vec<_>>());
        d.f.retain(|k, _| *k == keep);
        d.unknown.clear();
    }
    info.desc = crate::model::clip(&format!("room for {} {:?}", name, d), 600);
    let mut m: T = from_dyn(&d);
    if let Some(n) = if s.chance(1, 6) { Some(s.us(1, 3)) } else { None } {
        // More than the stream's own buffer holds.
        for k in 0..n {
            m.mut_unknown_fields().add_length_delimited(900 + k as u32, vec![k as u8; s.us(1000, 9000)]);
        }
        info.label("larger than the stream's buffer");
    }
    let b = written(&m, name)?;
    info.nontrivial = !b.is_empty();
    let k = if s.chance(1, 5) { b.len() + s.us(0, 3) } else { s.us(0, b.len()) };
    info.label_if(k < b.len(), "too little room");
    if b.len() <= 64 {
        for k in 0..=b.len() {
            let mut buf = [0u8; 64];
            let mut os = protobuf::CodedOutputStream::bytes(&mut buf[..k]);
            let ok = guarded(|| m.write_to(&mut os).is_ok()).map_err(|p| format!("{}: writing {} bytes to {}: {}", name, b.len(), k, p))?;
            if ok != (k >= b.len()) {
                return Err(format!("{}: writing a message of {} bytes to a slice of {} {}", name, b.len(), k, if ok { "succeeds" } else { "fails" }));
            }
        }
    }
    // a slice
    let mut buf = vec![0u8; k];
    let ok = {
        let mut os = protobuf::CodedOutputStream::bytes(&mut buf);
        let r = guarded(|| m.write_to(&mut os).is_ok()).map_err(|p| format!("{}: writing {} bytes to {}: {}", name, b.len(), k, p))?;
        if k == b.len() && r {
            guarded(|| os.check_eof()).map_err(|_| format!("{}: a message of {} bytes does not fill its {} bytes", name, b.len(), k))?;
        }
        r
    };
    if ok != (k >= b.len()) {
        return Err(format!("{}: writing a message of {} bytes to a slice of {} {}", name, b.len(), k, if ok { "succeeds" } else { "fails" }));
    }
    // Equal messages may list unknown fields in any order: compare what was written, not its bytes.
    if ok {
        expect("written to a slice", name, &decode(T::IDX, &buf[..b.len()])?, &decode(T::IDX, &b)?)?;
    }
    // a writer
    let mut w = Sink { got: Vec::new(), fail_at: k, once: s.chance(1, 2), failed: false };
    let r = guarded(|| m.write_to_writer(&mut w).is_ok()).map_err(|p| format!("{}: writing to a failing sink panics: {}", name, p))?;
    if r == w.failed {
        return Err(format!("{}: write_to_writer returns {} though the sink {}", name, if r { "Ok" } else { "Err" }, if w.failed { "failed" } else { "did not fail" }));
    }
    if r {
        expect("written to a writer", name, &decode(T::IDX, &w.got)?, &decode(T::IDX, &b)?)?;
    }
    // a reader
    let fail = s.chance(1, 3);
    let mut t = Trickle { b: &b, step: s.us(1, 9), fail };
    match guarded(|| T::parse_from_reader(&mut t)).map_err(|p| format!("{}: parsing from a reader panics: {}", name, p))? {
        Ok(_) if fail => return Err(format!("{}: a failing source of {} bytes is read as a message", name, b.len())),
        Ok(mut m) => expect("read from a reader", name, &to_dyn(&mut m), &decode(T::IDX, &b)?)?,
        Err(_) if fail => {}
        Err(e) => return Err(format!("{}: valid message rejected from a reader: {}", name, e)),
    }
    Ok(())
}

/// Bytes that are no message, or a damaged one.
fn garbage<T: Typed>(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let name = MSGS[T::IDX].name;
    let mut b = if s.chance(1, 3) {
        let n = s.us(0, 60);
        (0..n).map(|_| s.below(256) as u8).collect()
    } else {
        let d = gen_dyn(s, T::IDX, 1, true);
        encode(s, T::IDX, &d, true)
    };
    // 0: cut only, 1: a known field in any wire type and nothing else, 2: any damage
    let mode = s.weighted(&[3, 3, 4]);
    if mode == 1 || mode == 2 && s.chance(1, 4) {
        if s.chance(1, 2) {
            b.clear();
        }
        // a well-formed element of a known field in some wire type
        let f = s.pick(MSGS[T::IDX].fields);
        let w = s.below(6);
        put_tag(f.num, w, &mut b);
        match w {
            0 => put_varint(gen_u64(s), &mut b, false),
            1 => b.extend_from_slice(&s.bits().to_le_bytes()),
            2 => {
                let n = s.us(0, 9);
                b.push(n as u8);
                b.extend((0..n).map(|_| s.below(256) as u8));
            }
            5 => b.extend_from_slice(&(s.bits() as u32).to_le_bytes()),
            _ => {}
        }
        info.label("known field in any wire type");
    }
    if mode == 0 {
        b = cut(s, T::IDX, &b);
    }
    for _ in 0..if mode < 2 { 0 } else { s.us(0, 4) } {
        let n = b.len();
        match s.below(5) {
            0 if n > 0 => b[s.below(n as u64) as usize] = s.below(256) as u8,
            1 => b.truncate(s.us(0, n)),
            2 => b.insert(s.us(0, n), *s.pick(&[0u8, 0x80, 0xff, 0x7f, 8, 10, 3, 4])),
            3 if n > 0 => {
                b.remove(s.below(n as u64) as usize);
            }
            _ if n > 0 => b[s.below(n as u64) as usize] ^= 1 << s.below(8),
            _ => {}
        }
    }
    info.desc = format!("{} from bytes {:?}", name, &b[..b.len().min(80)]);
    info.nontrivial = !b.is_empty();
    if BITSET_LENIENT.load(std::sync::atomic::Ordering::SeqCst) && bitset_hazard(T::IDX, &b) {
        info.label("skipped: listed finding bitset-length");
        return Ok(());
    }
    let r = guarded(|| T::parse_from_bytes(&b)).map_err(|p| format!("{}: parsing {:?} panics: {}", name, b, p))?;
    let mine = decode(T::IDX, &b);
    match r {
        Err(_) => {
            info.label("rejected");
            info.label_if(mine.as_ref().is_err_and(|e| e.contains("truncated")), "rejected: cut short");
            // A repeated or optional field in an unexpected wire type and groups are rejected by both, or by the parser alone.
            if let Ok(d) = mine {
                return Err(format!("{}: rejects {:?}, which is the valid message {:?}", name, b, d));
            }
        }
        Ok(mut m) => {
            info.label("accepted");
            let d = to_dyn(&mut m);
            match &mine {
                Ok(want) if !unspecified() => expect("parsed bytes", name, &d, want)?,
                Err(e) if e.contains("truncated") => {
                    if NESTED_LENIENT.load(std::sync::atomic::Ordering::SeqCst) {
                        if let Some(c) = clamp(T::IDX, &b) {
                            let want = decode(T::IDX, &c);
                            let passed = match &want {
                                Ok(w) => *w == d || unspecified(),
                                Err(e) => !e.contains("truncated") && !e.contains("UTF-8"),
                            };
                            if passed {
                                info.label("listed finding nested-length");
                                return Ok(());
                            }
                        }
                    }
                    return Err(format!("{}: reads {:?}, which ends in the middle of a field ({}), as {:?}", name, b, e, d));
                }
                Err(e) if e.contains("not UTF-8") => {
                    return Err(format!("{}: reads {:?}, with a string that is not UTF-8, as {:?}", name, b, d));
                }
                Err(e) if e.contains("wire type") && !e.starts_with("protobuf: wire type") => {
                    // Only as an unknown field may it be accepted.
                    info.label("accepted: known field in another wire type");
                    if let (Ok(want), false) = (decode_lax(T::IDX, &b), unspecified()) {
                        expect("parsed bytes with a known field in another wire type", name, &d, &want)?;
                    }
                }
                _ => {}
            }
            let w = written(&m, name)?;
            let mut m2 = T::parse_from_bytes(&w).map_err(|e| format!("{}: what was parsed cannot be read back: {}", name, e))?;
            expect("parsed, written and parsed bytes", name, &to_dyn(&mut m2), &d)?;
        }
    }
    Ok(())
}

/// The FieldDescriptorProto type number of a kind.
pub fn type_number(k: &Kind) -> i32 {
    match k {
        Kind::Dbl => 1,
        Kind::U64 => 4,
        Kind::Fx64 => 6,
        Kind::Bool => 8,
        Kind::Str => 9,
        Kind::Msg(_) => 11,
        Kind::Bytes => 12,
        Kind::U32 => 13,
        Kind::Enum(_) => 14,
        Kind::S32 => 17,
        Kind::S64 => 18,
    }
}

/// The descriptor names, numbers, types and labels of the published schema.
fn descriptor<T: Typed>() -> Result<(), String> {
    let m = &MSGS[T::IDX];
    let d = T::descriptor_static();
    if d.name() != m.name {
        return Err(format!("message {} is named {}", m.name, d.name()));
    }
    if d.fields().len() != m.fields.len() {
        return Err(format!("{}: {} fields, should be {}", m.name, d.fields().len(), m.fields.len()));
    }
    for f in m.fields {
        let x = d.fields().iter().find(|x| x.name() == f.name).ok_or_else(|| format!("{}: no field {}", m.name, f.name))?;
        let p = x.proto();
        let want = type_number(&f.kind);
        if p.get_number() as u32 != f.num || p.get_field_type().value() != want || x.is_repeated() != f.rep {
            return Err(format!("{}.{}: described as number {} type {:?} repeated {}", m.name, f.name, p.get_number(), p.get_field_type(), x.is_repeated()));
        }
    }
    Ok(())
}

fn enums<E: ProtobufEnum + std::fmt::Debug>(name: &str, known: &[(&str, i32)]) -> Result<(), String> {
    if E::values().len() != known.len() {
        return Err(format!("enum {} has {} values, should have {}", name, E::values().len(), known.len()));
    }
    for (n, v) in known {
        match E::from_i32(*v) {
            Some(e) if e.value() == *v && format!("{:?}", e) == *n => {}
            x => return Err(format!("enum {}: {} is {:?}, should be {}", name, v, x, n)),
        }
    }
    for v in -3..1200 {
        if E::from_i32(v).is_some() != known.iter().any(|(_, k)| *k == v) {
            return Err(format!("enum {}: from_i32({}) is {:?}", name, v, E::from_i32(v)));
        }
    }
    Ok(())
}

fn all_enums() -> Result<(), String> {
    use orc_format::protos::orc_proto as o;
    let vals = |m: &str, f: &str| -> &'static [(&'static str, i32)] {
        let d = MSGS.iter().find(|x| x.name == m).unwrap().fields.iter().find(|x| x.name == f).unwrap();
        if let Kind::Enum(v) = &d.kind { v } else { unreachable!() }
    };
    enums::<o::Stream_Kind>("Stream.Kind", vals("Stream", "kind"))?;
    enums::<o::ColumnEncoding_Kind>("ColumnEncoding.Kind", vals("ColumnEncoding", "kind"))?;
    enums::<o::Type_Kind>("Type.Kind", vals("Type", "kind"))?;
    enums::<o::CompressionKind>("CompressionKind", vals("PostScript", "compression"))
}

pub fn c22(s: &mut Src, info: &mut Info) -> Result<(), String> {
    UNSPECIFIED.with(|x| x.set(false));
    let idx = s.below(MSGS.len() as u64) as usize;
    let mode = s.weighted(&[5, 3, 4, 2]);
    if s.chance(1, 64) {
        all_enums()?;
    }
    for_message!(idx, T => {
        descriptor::<T>()?;
        match mode {
            0 => {
                info.label("wire round trip");
                wire::<T>(s, info)
            }
            1 => {
                info.label("accessor sequence");
                accessors::<T>(s, info)
            }
            3 => {
                info.label("room");
                room::<T>(s, info)
            }
            _ => {
                info.label("arbitrary bytes");
                garbage::<T>(s, info)
            }
        }
    })
}
