//! Properties about call histories: C16..C21, C24.

use crate::drive::*;
use crate::engine::{guarded, Info, Rng, Src};
use crate::gen::*;
use crate::model::*;
use crate::p_file::{describe, first_diff, refs, same_types, stripes_label};
use crate::reader::*;
use crate::rle::varint128;
use orc_format::schema::Schema;
use orc_format::writer::compression::{NoCompression, SnappyCompression, ZstdCompression};
use orc_format::writer::data::{BaseData, Data, GenericData};
use orc_format::writer::{Config, Writer};
use std::io::{self, BufWriter, Write};

type R = Result<(), String>;

pub(crate) fn small(max_vals: i64) -> CaseOpts {
    CaseOpts { max_vals, max_bytes: 8000, max_batches: 6, ..Default::default() }
}

// ---------------------------------------------------------------------------------------------
// C16

#[derive(Clone, Copy, Debug)]
pub(crate) enum Op<'a> {
    V(&'a Val),
    Len(u64),
    Tag(usize),
    Null,
    Struct,
}

pub(crate) fn to_ops<'a>(col: &FlatCol<'a>) -> Vec<Op<'a>> {
    col.vals
        .iter()
        .map(|v| match v {
            Val::Null => Op::Null,
            Val::Struct(_) => Op::Struct,
            Val::List(x) => Op::Len(x.len() as u64),
            Val::Map(x) => Op::Len(x.len() as u64),
            Val::Union(t, _) => Op::Tag(*t),
            v => Op::V(v),
        })
        .collect()
}

pub(crate) fn apply_op(d: &mut Data, o: &Op) {
    match o {
        Op::V(v) => write_op(d, v, Entry::Mixed(5)),
        Op::Len(n) => match d {
            Data::List(l) => l.write(*n),
            d => d.unwrap_map().write(*n),
        },
        Op::Tag(t) => d.unwrap_union().write(*t),
        Op::Null => d.write_null(),
        Op::Struct => d.unwrap_struct().write(),
    }
}

/// Number of values every column needs, given what its parent received. Returns the first column
/// whose number of values differs.
pub(crate) fn mismatch(ty: &Ty, ops: &[Vec<Op>], n: u64) -> Option<String> {
    fn go(t: &Ty, id: usize, want: u128, ops: &[Vec<Op>]) -> Option<String> {
        let have = ops[id].len() as u128;
        if have != want {
            return Some(format!("column {} ({}) has {} values, {} needed", id, t.render(), have, want));
        }
        let mut c = id + 1;
        for (i, k) in t.children().into_iter().enumerate() {
            let w: u128 = ops[id]
                .iter()
                .map(|o| match (t, o) {
                    (Ty::Struct(_), Op::Struct) => 1,
                    (Ty::List(_) | Ty::Map(..), Op::Len(n)) => *n as u128,
                    (Ty::Union(_), Op::Tag(g)) => (*g == i) as u128,
                    _ => 0,
                })
                .sum();
            if let Some(m) = go(k, c, w, ops) {
                return Some(m);
            }
            c += k.columns();
        }
        None
    }
    go(ty, 0, n as u128, ops)
}

fn a_value<'a>(t: &Ty, near: Option<&Op<'a>>) -> Op<'a> {
    match (t, near) {
        (_, Some(o)) => *o,
        (Ty::Struct(_), None) => Op::Struct,
        (Ty::List(_) | Ty::Map(..), None) => Op::Len(0),
        _ => Op::Null,
    }
}

/// One random change to the calls of a batch. Returns what was done.
pub(crate) fn mutate<'a>(s: &mut Src, ty: &Ty, ops: &mut [Vec<Op<'a>>], n: &mut u64) -> String {
    let nodes = ty.preorder();
    let c = s.below(nodes.len() as u64) as usize;
    let at = |s: &mut Src, l: usize| s.below(l.max(1) as u64) as usize;
    match s.weighted(&[4, 4, 5, 3, 3, 3, 3, 3]) {
        0 if !ops[c].is_empty() => {
            let i = at(s, ops[c].len());
            ops[c].remove(i);
            format!("call {} of column {} left out", i, c)
        }
        1 => {
            let i = at(s, ops[c].len());
            let o = if s.chance(1, 3) { Op::Null } else { a_value(nodes[c], ops[c].get(i)) };
            ops[c].insert(i.min(ops[c].len()), o);
            format!("additional {:?} at call {} of column {}", o, i, c)
        }
        2 => {
            // a wrong length
            let cand: Vec<(usize, usize)> = (0..ops.len())
                .flat_map(|c| ops[c].iter().enumerate().filter(|(_, o)| matches!(o, Op::Len(_))).map(move |(i, _)| (c, i)))
                .collect();
            if cand.is_empty() {
                *n = n.wrapping_add(1);
                return "row count + 1".into();
            }
            let (c, i) = *s.pick(&cand);
            let Op::Len(l) = ops[c][i] else { unreachable!() };
            let d = *s.pick(&[1u64, 2, 256, 65536, 1 << 31, 1 << 32, 1 << 33, 1 << 63, u64::MAX - 3]);
            let l2 = match s.below(4) {
                0 => l.saturating_sub(1),
                1 => l.saturating_sub(d),
                2 => 0,
                _ => l.saturating_add(d),
            };
            ops[c][i] = Op::Len(l2);
            let mut m = format!("length {} -> {} at call {} of column {}", l, l2, i, c);
            if s.chance(1, 4) && cand.len() > 1 {
                // and another one the other way
                let (c, i) = *s.pick(&cand);
                let Op::Len(l) = ops[c][i] else { unreachable!() };
                let l2 = if s.chance(1, 2) { l.saturating_add(d) } else { l.saturating_sub(d) };
                ops[c][i] = Op::Len(l2);
                m += &format!(", {} -> {} at call {} of column {}", l, l2, i, c);
            }
            m
        }
        3 => {
            let cand: Vec<(usize, usize)> = (0..ops.len())
                .flat_map(|c| ops[c].iter().enumerate().filter(|(_, o)| matches!(o, Op::Tag(_))).map(move |(i, _)| (c, i)))
                .collect();
            if cand.is_empty() {
                *n = n.saturating_sub(1);
                return "row count - 1".into();
            }
            let (c, i) = *s.pick(&cand);
            let k = nodes[c].children().len() as u64;
            let t = s.below(k) as usize;
            let m = format!("tag {:?} -> {} at call {} of column {}", ops[c][i], t, i, c);
            ops[c][i] = Op::Tag(t);
            m
        }
        4 if !ops[c].is_empty() => {
            // present <-> null, leaving the children alone
            let i = at(s, ops[c].len());
            let old = ops[c][i];
            ops[c][i] = match old {
                Op::Null => match nodes[c] {
                    Ty::Struct(_) => Op::Struct,
                    Ty::List(_) | Ty::Map(..) => Op::Len(1),
                    Ty::Union(k) if !k.is_empty() => Op::Tag(0),
                    _ => Op::Null,
                },
                _ => Op::Null,
            };
            format!("{:?} -> {:?} at call {} of column {}", old, ops[c][i], i, c)
        }
        5 => {
            let d = *s.pick(&[1u64, 1, 1, 2, 8, 256, 65536, 1 << 31, 1 << 32, 1 << 33, 1 << 63]);
            let old = *n;
            *n = match s.below(4) {
                0 => n.saturating_sub(d),
                1 => 0,
                2 => n.wrapping_sub(d),
                _ => n.saturating_add(d),
            };
            format!("row count {} -> {}", old, *n)
        }
        6 => {
            // one too many here, one too few there
            let c2 = s.below(nodes.len() as u64) as usize;
            let i = at(s, ops[c].len());
            let o = a_value(nodes[c], ops[c].get(i));
            ops[c].push(o);
            ops[c2].pop();
            format!("additional call of column {}, last call of column {} left out", c, c2)
        }
        _ => {
            // all children of a column are out of step with it, but not with each other
            let Some(p) = (0..nodes.len()).find(|p| *p >= c && !nodes[*p].is_leaf()) else {
                *n = n.wrapping_add(1);
                return "row count + 1".into();
            };
            let drop = s.chance(1, 2);
            let mut k = p + 1;
            for t in nodes[p].children() {
                if drop {
                    ops[k].pop();
                } else {
                    let o = a_value(t, ops[k].last());
                    ops[k].push(o);
                }
                k += t.columns();
            }
            format!("one value {} for every child of column {}", if drop { "less" } else { "more" }, p)
        }
    }
}

pub(crate) fn write_ops(d: &mut Data, paths: &[Vec<usize>], ops: &[Vec<Op>], rng: &mut Rng) {
    let mut order: Vec<usize> = (0..ops.len()).collect();
    for i in (1..order.len()).rev() {
        let j = (rng.next() % (i as u64 + 1)) as usize;
        order.swap(i, j);
    }
    for c in order {
        let d = column(d, &paths[c], &mut || rng.next() & 1 == 1);
        for o in &ops[c] {
            apply_op(d, o);
        }
    }
}

pub fn c16(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts { root_struct_pct: 60, ..Default::default() }, small(700));
    if s.chance(1, 3) {
        c.cfg.stripe = Some(s.us(0, 60));
    }
    describe(&c, info);
    // Matching counts are accepted.
    let a = file_how(&c, &gen_how(s)).map_err(|e| format!("all counts match, but: {}", e))?;
    let f = OrcFile::parse(&a)?;
    stripes_label(&f, info);
    let paths = c.ty.paths();
    let rows: Vec<Vec<&Val>> = c.batches.iter().map(|b| refs(b)).collect();
    let good: Vec<Vec<Vec<Op>>> = rows.iter().map(|r| flatten(&c.ty, r).iter().map(to_ops).collect()).collect();
    let k = if c.batches.is_empty() { 0 } else { s.us(1, 6) };
    let mut bad = 0;
    for _ in 0..k {
        info.sub += 1;
        let b = s.us(0, c.batches.len() - 1);
        let mut ops = good[b].clone();
        let mut n = c.batches[b].len() as u64;
        let mut what = mutate(s, &c.ty, &mut ops, &mut n);
        if s.chance(1, 5) {
            what += "; ";
            what += &mutate(s, &c.ty, &mut ops, &mut n);
        }
        let mism = mismatch(&c.ty, &ops, n);
        let seed = s.below(1 << 16);
        let what = format!("batch {} with {}", b, what);
        let schema = c.ty.schema();
        let mut w = Writer::new(Vec::new(), &schema, c.cfg.build()).map_err(|e| format!("new: {}", e))?;
        for i in 0..=b {
            let (o, n) = if i == b { (&ops, n) } else { (&good[i], c.batches[i].len() as u64) };
            let mut rng = Rng::new(seed + i as u64);
            guarded(|| write_ops(w.data(), &paths, o, &mut rng)).map_err(|p| format!("{}: writing values of batch {} panics: {}", what, i, p))?;
            let r = guarded(|| w.write_batch(n));
            match (r, i == b && mism.is_some()) {
                (Ok(Ok(())), false) | (Err(_), true) => {}
                (Ok(Err(e)), _) => return Err(format!("{}: write_batch {} fails: {}", what, i, e)),
                (Err(p), false) => return Err(format!("{}: write_batch {} panics though all counts match: {}", what, i, p)),
                (Ok(Ok(())), true) => return Err(format!("{}: write_batch({}) accepts it: {}", what, n, mism.unwrap())),
            }
        }
        if mism.is_some() {
            bad += 1;
            info.label_if(b > 0, "mismatch in a later batch");
        } else {
            info.label("mutation keeps the counts");
        }
    }
    for _ in 0..s.us(0, 3) {
        info.sub += 1;
        // Values that belong to no batch, before finish.
        let b = s.us(0, c.batches.len());
        let mut ops: Vec<Vec<Op>> = vec![Vec::new(); paths.len()];
        if b < good.len() && s.chance(1, 2) {
            let part = s.chance(1, 2);
            ops = good[b].clone();
            if part {
                for o in &mut ops {
                    let n = s.us(0, o.len());
                    o.truncate(n);
                }
            }
        } else if s.chance(9, 10) {
            for _ in 0..s.us(1, 3) {
                let k = s.us(0, paths.len() - 1);
                ops[k].push(Op::Null);
            }
        }
        let mism = mismatch(&c.ty, &ops, 0);
        let seed = s.below(1 << 16);
        let (sink, st) = Sink::new(Plan::good());
        let schema = c.ty.schema();
        let mut w = Writer::new(sink, &schema, c.cfg.build()).map_err(|e| format!("new: {}", e))?;
        for i in 0..b {
            let mut rng = Rng::new(seed + i as u64);
            let r = guarded(|| {
                write_ops(w.data(), &paths, &good[i], &mut rng);
                w.write_batch(c.batches[i].len() as u64)
            });
            if !matches!(r, Ok(Ok(()))) {
                return Err(format!("batch {} fails though all counts match: {:?}", i, r));
            }
        }
        let mut rng = Rng::new(seed + b as u64);
        guarded(|| write_ops(w.data(), &paths, &ops, &mut rng)).map_err(|p| format!("writing values after {} batches panics: {}", b, p))?;
        let before = st.borrow().bytes.len();
        let r = guarded(|| w.finish().map(|_| ()));
        match (r, &mism) {
            (Ok(Ok(())), None) => {}
            (Err(_), Some(_)) => {
                bad += 1;
                info.label("values without a batch at the end");
                if st.borrow().bytes.len() != before {
                    return Err(format!("after {} batches, finish refuses values that belong to no batch, but delivers {} bytes", b, st.borrow().bytes.len() - before));
                }
            }
            (Ok(Ok(())), Some(m)) => return Err(format!("after {} batches, finish accepts values that belong to no batch: {}", b, m)),
            (Ok(Err(e)), _) => return Err(format!("after {} batches, finish fails: {}", b, e)),
            (Err(p), None) => return Err(format!("after {} batches, finish panics though all counts match: {}", b, p)),
        }
    }
    info.nontrivial = bad > 0;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C17

pub fn c17(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts::default(), small(1500));
    if s.chance(1, 2) {
        c.cfg.stripe = Some(s.us(0, 400));
    }
    describe(&c, info);
    let how = gen_how(s);
    let want = file_how(&c, &how)?;
    for _ in 0..s.us(1, 5) {
        info.sub += 1;
        let short = match s.below(4) {
            0 => 0,
            1 => 1,
            2 => s.us(2, 16),
            _ => s.us(17, 3000),
        };
        let plan = Plan { short, interrupt: if s.chance(2, 3) { s.range(1, 12) } else { 0 }, seed: s.below(1 << 20), ..Plan::good() };
        let buffered = if s.chance(1, 4) { Some(s.us(0, 500)) } else { None };
        let name = format!("sink {:?} buffered {:?}", plan, buffered);
        let (sink, st) = Sink::new(plan.clone());
        // Kept until the end: dropping a BufWriter flushes it.
        let mut kept = None;
        let r = guarded(|| match buffered {
            None => write_to(&c, &how, sink).map(|_| ()),
            Some(cap) => write_to(&c, &how, BufWriter::with_capacity(cap, sink)).map(|b| kept = Some(b)),
        });
        info.label_if(plan.interrupt > 0, "interrupted sink");
        info.label_if(plan.short > 0, "short writes");
        match r {
            Err(p) => return Err(format!("{}: panic: {}", name, p)),
            Ok(Err((at, e))) => return Err(format!("{}: {} fails: {}", name, at, e)),
            Ok(Ok(())) => {}
        }
        {
            let st = st.borrow();
            if st.flushes == 0 || st.unflushed {
                return Err(format!("{}: not flushed when finish returned", name));
            }
            if st.bytes != want {
                return Err(format!("{}: other bytes than a sink that accepts everything ({})", name, first_diff(&want, &st.bytes)));
            }
        }
        drop(kept);
    }
    info.nontrivial = info.labels.contains(&"interrupted sink") || info.labels.contains(&"short writes");
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C18

/// Is `got` the concatenation of the batches, where those not `must` may be missing?
fn covers(got: &[Val], batches: &[&[Val]], must: &[bool]) -> bool {
    let mut at = std::collections::BTreeSet::from([0usize]);
    for (b, m) in batches.iter().zip(must) {
        let mut next = std::collections::BTreeSet::new();
        for p in &at {
            if !m {
                next.insert(*p);
            }
            if got.len() - p >= b.len() && got[*p..p + b.len()] == **b {
                next.insert(p + b.len());
            }
        }
        at = next;
    }
    at.contains(&got.len())
}

struct Faulty {
    calls: u64,
    /// The whole history, finish included, reported success.
    finished: bool,
}

/// Write a case to a failing sink; every fault must be reported by the call in progress.
fn run_faulty(c: &Case, plan: &Plan, carry_on: bool, buffered: Option<usize>) -> Result<Faulty, String> {
    let (sink, st) = Sink::new(plan.clone());
    let (sink, buf) = match buffered {
        None => (Some(sink), None),
        Some(cap) => (None, Some(BufWriter::with_capacity(cap, sink))),
    };
    fn drive<W: Write>(c: &Case, sink: W, st: &std::rc::Rc<std::cell::RefCell<SinkState>>, carry_on: bool) -> Result<bool, String> {
        let faults = || {
            let s = st.borrow();
            s.errors + s.zero
        };
        let schema = c.ty.schema();
        let mut seen = 0;
        // Judge the outcome of a call: Ok(true) success, Ok(false) reported failure.
        let mut judge = |at: &str, r: Result<io::Result<()>, String>| -> Result<bool, String> {
            let now = faults();
            let fresh = now > seen;
            let before = seen > 0;
            seen = now;
            match r {
                Err(p) => Err(format!("{} panics: {}", at, p)),
                Ok(Ok(())) if fresh => Err(format!("{} reports success although the sink failed during the call", at)),
                Ok(Ok(())) => Ok(true),
                Ok(Err(e)) if !fresh && !before => Err(format!("{} fails although the sink never did: {}", at, e)),
                Ok(Err(_)) => Ok(false),
            }
        };
        let mut slot = None;
        let r = guarded(|| Writer::new(sink, &schema, c.cfg.build()).map(|w| slot = Some(w)));
        if !judge("Writer::new", r)? {
            return Ok(false);
        }
        let mut w = slot.unwrap();
        let mut must = Vec::new();
        for (i, b) in c.batches.iter().enumerate() {
            let r = guarded(|| {
                for r in b {
                    write_val(w.data(), r, Entry::Mixed(5));
                }
            });
            if let Err(p) = r {
                // Nothing was reported to the user here: only allowed never.
                return Err(format!("writing the values of batch {} panics: {}", i, p));
            }
            let r = guarded(|| w.write_batch(b.len() as u64));
            let ok = judge(&format!("write_batch {}", i), r)?;
            must.push(ok);
            if !ok && !carry_on {
                // The user gives up.
                drop(w);
                return Ok(false);
            }
        }
        let mut ret = None;
        let r = guarded(|| w.finish().map(|s| ret = Some(s)));
        if !judge("finish", r)? {
            return Ok(false);
        }
        // `ret` is kept: dropping a BufWriter flushes it.
        let st = st.borrow();
        if st.unflushed {
            return Err("finish reports success but the sink was not flushed after the last write".into());
        }
        let e = |m: String| format!("finish reports success but the sink holds no complete file ({} bytes): {}", st.bytes.len(), m);
        let f = OrcFile::parse(&st.bytes).map_err(e)?;
        same_types(&f, &c.ty).map_err(e)?;
        let got = f.decode_all(&c.ty).map_err(e)?;
        let bs: Vec<&[Val]> = c.batches.iter().map(|b| &b[..]).collect();
        if !covers(&got, &bs, &must) {
            return Err(e(format!("it has {} rows; batches {:?} were committed with success {:?}", got.len(), bs.iter().map(|b| b.len()).collect::<Vec<_>>(), must)));
        }
        drop(st);
        drop(ret);
        Ok(true)
    }
    let finished = match (sink, buf) {
        (Some(s), _) => drive(c, s, &st, carry_on)?,
        (_, Some(b)) => drive(c, b, &st, carry_on)?,
        _ => unreachable!(),
    };
    let calls = st.borrow().calls;
    Ok(Faulty { calls, finished })
}

pub fn c18(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts { max_cols: 6, max_depth: 3, root_struct_pct: 75 }, CaseOpts { max_vals: 260, max_bytes: 1500, max_batches: 5, ..Default::default() });
    if s.chance(3, 5) {
        c.cfg.stripe = Some(s.us(0, 60));
    }
    if let Comp::Zstd(_, Some(l)) = &mut c.cfg.comp {
        *l = (*l).min(4);
    }
    describe(&c, info);
    let buffered = if s.chance(1, 6) { Some(s.us(0, 300)) } else { None };
    let short = if s.chance(1, 5) { s.us(1, 40) } else { 0 };
    let base = Plan { short, interrupt: 0, seed: s.below(1000), ..Plan::good() };
    let good = run_faulty(&c, &base, false, buffered)?;
    if !good.finished {
        return Err("the run without any fault did not finish".into());
    }
    let n = good.calls;
    let kinds = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe, io::ErrorKind::UnexpectedEof, io::ErrorKind::TimedOut, io::ErrorKind::WriteZero];
    const MAX: u64 = 70;
    let points: Vec<u64> = if n <= MAX {
        (0..n).collect()
    } else {
        let mut v: Vec<u64> = (0..12).chain(n - 25..n).collect();
        v.extend((0..MAX - 37).map(|_| s.range(12, n - 26)));
        v.sort();
        v.dedup();
        v
    };
    info.label_if(n <= MAX, "every sink call failed once");
    info.label_if(buffered.is_some(), "behind a BufWriter");
    let rot = s.below(64);
    for (i, k) in points.iter().enumerate() {
        let x = rot + i as u64;
        let plan = Plan {
            fail_at: Some(*k),
            times: [1, u64::MAX, 1, 2][(x % 4) as usize],
            fault: if x % 5 == 2 { Fault::Zero } else { Fault::Err(kinds[(x % 6) as usize]) },
            ..base.clone()
        };
        let both: &[bool] = if x % 3 == 0 { &[true, false] } else { &[true] };
        for carry in both {
            info.sub += 1;
            run_faulty(&c, &plan, *carry, buffered).map_err(|e| {
                format!("fault {:?} x{} at sink call {} of {}, user {}: {}", plan.fault, plan.times, k, n, if *carry { "carries on" } else { "stops" }, e)
            })?;
        }
    }
    info.nontrivial = c.rows() > 0;
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C19

fn cfg_other_order(s: &mut Src, c: &Cfg) -> Config {
    // Junk values first, then the real ones in a random order.
    let mut x = Config::new();
    let junk = gen_cfg(s);
    if s.chance(1, 2) {
        x = x.with_compression(junk.comp.build());
    }
    if s.chance(1, 2) {
        x = x.with_row_index_stride(junk.stride_value() as u32);
    }
    if s.chance(1, 2) {
        x = x.with_stripe_size(junk.stripe_value());
    }
    let mut todo = vec![0, 1, 2];
    while !todo.is_empty() {
        let i = s.below(todo.len() as u64) as usize;
        x = match todo.remove(i) {
            0 => x.with_row_index_stride(c.stride_value() as u32),
            1 => x.with_stripe_size(c.stripe_value()),
            _ => {
                let comp = match c.comp {
                    Comp::None => NoCompression::new().build(),
                    Comp::Snappy(b) => {
                        let mut k = SnappyCompression::new();
                        if s.chance(1, 2) {
                            k = k.with_block_size(s.us(1, 5000));
                        }
                        k.with_block_size(b.unwrap_or(262144)).build()
                    }
                    Comp::Zstd(b, l) => {
                        let mut k = ZstdCompression::new();
                        if s.chance(1, 2) {
                            k = k.with_block_size(s.us(1, 5000)).with_compression_level(s.range(1, 22) as i32);
                        }
                        let (b, l) = (b.unwrap_or(262144), l.unwrap_or(3));
                        if s.chance(1, 2) {
                            k.with_block_size(b).with_compression_level(l).build()
                        } else {
                            k.with_compression_level(l).with_block_size(b).build()
                        }
                    }
                };
                if s.chance(1, 2) {
                    let y = x.clone().with_compression(comp.clone());
                    // the copy that is not used is spoilt
                    let _ = x.with_compression(junk.comp.build());
                    y
                } else {
                    x.with_compression(comp)
                }
            }
        };
    }
    x
}

fn write_with(c: &Case, cfg: Config, schema: &Schema, e: Entry) -> Result<Vec<u8>, String> {
    let mut w = Writer::new(Vec::new(), schema, cfg).map_err(|e| e.to_string())?;
    for b in &c.batches {
        for r in b {
            write_val(w.data(), r, e);
        }
        w.write_batch(b.len() as u64).map_err(|e| e.to_string())?;
    }
    w.finish().map_err(|e| e.to_string())
}

/// Interleave the calls of several writers.
fn interleaved(s: &mut Src, cs: &[&Case], e: Entry) -> Result<Vec<Vec<u8>>, String> {
    let schemas: Vec<Schema> = cs.iter().map(|c| c.ty.schema()).collect();
    let mut ws: Vec<Option<Writer<Vec<u8>>>> = cs.iter().map(|_| None).collect();
    let mut out: Vec<Option<Vec<u8>>> = cs.iter().map(|_| None).collect();
    let mut at = vec![(0usize, 0usize); cs.len()];
    let mut rng = Rng::new(s.below(1 << 20));
    while out.iter().any(|o| o.is_none()) {
        let i = (rng.next() % cs.len() as u64) as usize;
        if out[i].is_some() {
            continue;
        }
        let c = cs[i];
        if ws[i].is_none() {
            ws[i] = Some(Writer::new(Vec::new(), &schemas[i], c.cfg.build()).map_err(|e| e.to_string())?);
            continue;
        }
        let w = ws[i].as_mut().unwrap();
        let (b, r) = at[i];
        if b == c.batches.len() {
            out[i] = Some(ws[i].take().unwrap().finish().map_err(|e| e.to_string())?);
        } else if r == c.batches[b].len() {
            w.write_batch(r as u64).map_err(|e| e.to_string())?;
            at[i] = (b + 1, 0);
        } else {
            let n = (1 + rng.next() % 5) as usize;
            let hi = (r + n).min(c.batches[b].len());
            for v in &c.batches[b][r..hi] {
                write_val(w.data(), v, e);
            }
            at[i].1 = hi;
        }
    }
    Ok(out.into_iter().map(|o| o.unwrap()).collect())
}

/// The history of a C19 case; also used by the helper process.
fn c19_case(s: &mut Src) -> (Case, How) {
    let c = gen_case(s, SchemaOpts::default(), small(800));
    let how = gen_entry_how(s);
    (c, how)
}

/// The helper process: choices on the standard input, the file on the standard output.
pub fn c19_helper() -> i32 {
    let mut t = String::new();
    if io::Read::read_to_string(&mut io::stdin(), &mut t).is_err() {
        return 4;
    }
    let list: Vec<u64> = t.split_whitespace().filter_map(|x| x.parse().ok()).collect();
    let out = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let (c, how) = c19_case(&mut Src::replay(list));
        file_how(&c, &how)
    });
    match out.map(|h| h.join()) {
        Ok(Ok(Ok(b))) => {
            if io::stdout().write_all(&b).is_ok() {
                0
            } else {
                4
            }
        }
        Ok(Ok(Err(e))) => {
            eprintln!("{}", e);
            5
        }
        _ => 4,
    }
}

/// The same history in a process of its own, with another environment and working directory.
fn other_process(choices: &[u64], which: u64) -> Result<Vec<u8>, String> {
    use std::process::{Command, Stdio};
    let exe = std::env::current_exe().map_err(|e| format!("HARNESS: {}", e))?;
    let mut k = Command::new(exe);
    k.arg("helper-c19").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).env_clear();
    let sets: [&[(&str, &str)]; 3] = [
        &[],
        &[("TZ", "Pacific/Auckland"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("USER", "nobody"), ("HOME", "/nonexistent")],
        &[("TZ", "America/St_Johns"), ("ZSTD_CLEVEL", "19"), ("ZSTD_NBTHREADS", "3"), ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "1"), ("SOURCE_DATE_EPOCH", "0")],
    ];
    for (n, v) in sets[which as usize % 3] {
        k.env(n, v);
    }
    k.current_dir(["/", "/tmp", "/usr"][which as usize % 3]);
    let mut ch = k.spawn().map_err(|e| format!("HARNESS: {}", e))?;
    let text: String = choices.iter().map(|c| format!("{} ", c)).collect();
    ch.stdin.take().unwrap().write_all(text.as_bytes()).map_err(|e| format!("HARNESS: {}", e))?;
    let o = ch.wait_with_output().map_err(|e| format!("HARNESS: {}", e))?;
    if !o.status.success() {
        return Err(format!("in another process: {:?}: {}", o.status, String::from_utf8_lossy(&o.stderr)));
    }
    Ok(o.stdout)
}

pub fn c19(s: &mut Src, info: &mut Info) -> R {
    let so = SchemaOpts::default();
    let first = s.rec.len();
    let (c, how) = c19_case(s);
    let choices = s.rec[first..].to_vec();
    describe(&c, info);
    let a = file_how(&c, &how)?;
    let cmp = |b: &[u8], what: &str| if a == b { Ok(()) } else { Err(format!("{}: other bytes than the first time ({})", what, first_diff(&a, b))) };
    let shift = *s.pick(&[1i64, -1, 3600, -7200, 86_400, -40 * 365 * 86_400, 400 * 365 * 86_400, 1 << 33]);
    let later = {
        let _c = crate::clock::Shift::new(shift);
        file_how(&c, &how)
    };
    cmp(&later?, &format!("with the clock {} s later", shift))?;
    if s.chance(1, 150) {
        info.label("in another process and environment");
        cmp(&other_process(&choices, s.below(3))?, "in another process with another environment")?;
    }
    cmp(&file_how(&c, &how)?, "same calls again")?;
    // shared and cloned configuration and schema values
    let cfg = c.cfg.build();
    let schema = c.ty.schema();
    let copy = cfg.clone();
    cmp(&write_with(&c, cfg.clone(), &schema, how.entry)?, "cloned configuration")?;
    cmp(&write_with(&c, copy, &schema.clone(), how.entry)?, "configuration cloned before")?;
    cmp(&write_with(&c, cfg, &schema, how.entry)?, "configuration used before")?;
    let other = cfg_other_order(s, &c.cfg);
    cmp(&write_with(&c, other, &schema, how.entry)?, "setters in another order, with overwritten values")?;
    // another writer in between
    let mut d = gen_case(s, so, small(300));
    if s.chance(1, 2) {
        d.cfg = c.cfg.clone();
    }
    let db = file_how(&d, &how)?;
    let both = interleaved(s, &[&c, &d], how.entry)?;
    cmp(&both[0], "interleaved with another writer")?;
    if both[1] != db {
        return Err(format!("the other writer's bytes differ when interleaved ({})", first_diff(&db, &both[1])));
    }
    if s.chance(1, 2) {
        // an abandoned writer
        let mut w = Writer::new(Vec::new(), &schema, c.cfg.build()).map_err(|e| e.to_string())?;
        for r in c.batches.iter().flatten().take(50) {
            write_val(w.data(), r, how.entry);
        }
        drop(w);
        cmp(&file_how(&c, &how)?, "after a writer was abandoned")?;
    }
    info.sub += 7;
    if s.chance(1, 4) {
        info.label("in several threads");
        let r: Vec<Result<Vec<u8>, String>> = std::thread::scope(|sc| {
            let h: Vec<_> = (0..3)
                .map(|i| {
                    let x = if i == 1 { &d } else { &c };
                    sc.spawn(move || file_how(x, &how))
                })
                .collect();
            h.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
        });
        for (i, b) in r.into_iter().enumerate() {
            let b = b?;
            if i == 1 {
                if b != db {
                    return Err(format!("another thread's writer gives other bytes ({})", first_diff(&db, &b)));
                }
            } else {
                cmp(&b, "in another thread")?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C20

/// Err(true): panicked. The file of a small history, or the error.
fn whole(f: impl FnOnce() -> io::Result<Vec<u8>>) -> Result<Result<Vec<u8>, String>, String> {
    match guarded(f) {
        Ok(Ok(v)) => Ok(Ok(v)),
        Ok(Err(e)) => Err(format!("returns an error: {}", e)),
        Err(p) => Ok(Err(p)),
    }
}

fn verdict(what: &str, valid: bool, r: Result<Result<Vec<u8>, String>, String>) -> Result<Option<Vec<u8>>, String> {
    match (r.map_err(|e| format!("{}: {}", what, e))?, valid) {
        (Ok(b), true) => Ok(Some(b)),
        (Err(_), false) => Ok(None),
        (Ok(b), false) => Err(format!("{} is accepted and gives a file of {} bytes", what, b.len())),
        (Err(p), true) => Err(format!("{} is valid but panics: {}", what, p)),
    }
}

pub(crate) fn unwrap_results(d: &mut Data) -> Vec<(&'static str, Result<*const u8, String>)> {
    macro_rules! t {
        ($($n:ident),*) => { vec![$((stringify!($n), guarded(|| d.$n() as *mut _ as *const u8))),*] };
    }
    t!(
        unwrap_boolean, unwrap_long, unwrap_float, unwrap_double, unwrap_timestamp, unwrap_decimal, unwrap_string, unwrap_binary, unwrap_struct,
        unwrap_list, unwrap_map, unwrap_union
    )
}

pub(crate) fn unwrap_of(t: &Ty) -> &'static str {
    match t {
        Ty::Bool => "unwrap_boolean",
        Ty::Short | Ty::Int | Ty::Long | Ty::Date => "unwrap_long",
        Ty::Float => "unwrap_float",
        Ty::Double => "unwrap_double",
        Ty::Ts => "unwrap_timestamp",
        Ty::Dec(..) => "unwrap_decimal",
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) => "unwrap_string",
        Ty::Bin => "unwrap_binary",
        Ty::Struct(_) => "unwrap_struct",
        Ty::List(_) => "unwrap_list",
        Ty::Map(..) => "unwrap_map",
        Ty::Union(_) => "unwrap_union",
    }
}

fn variant_ptr(d: &mut Data) -> *const u8 {
    match d {
        Data::Boolean(x) => x as *mut _ as *const u8,
        Data::Long(x) => x as *mut _ as *const u8,
        Data::Float(x) => x as *mut _ as *const u8,
        Data::Double(x) => x as *mut _ as *const u8,
        Data::Timestamp(x) => x as *mut _ as *const u8,
        Data::Decimal(x) => x as *mut _ as *const u8,
        Data::String(x) => x as *mut _ as *const u8,
        Data::Binary(x) => x as *mut _ as *const u8,
        Data::List(x) => x as *mut _ as *const u8,
        Data::Struct(x) => x as *mut _ as *const u8,
        Data::Map(x) => x as *mut _ as *const u8,
        Data::Union(x) => x as *mut _ as *const u8,
    }
}

fn c20_variants(s: &mut Src, info: &mut Info) -> R {
    info.label("number of union variants");
    let n = match s.below(5) {
        0 => s.us(0, 300),
        1 => s.us(250, 262),
        2 => 256,
        3 => 257,
        _ => *s.pick(&[0usize, 1, 2, 127, 128, 129, 255, 256, 257, 258, 300, 512, 513, 1000]),
    };
    let kids: Vec<Ty> = (0..n).map(|i| if n < 40 { gen_leaf_ty(s) } else { [Ty::Long, Ty::Bool, Ty::Str][i % 3].clone() }).collect();
    let u = Ty::Union(kids);
    let ty = match s.below(4) {
        0 => u.clone(),
        1 => Ty::Struct(vec![("u".into(), u.clone())]),
        2 => Ty::List(Box::new(u.clone())),
        _ => Ty::Struct(vec![("k".into(), Ty::Long), ("u".into(), u.clone())]),
    };
    // Rows with the tags at both ends and some others.
    let mut tags: Vec<usize> = Vec::new();
    if n > 0 {
        tags.push(0);
        tags.push(n - 1);
        for _ in 0..s.us(0, 40) {
            tags.push(s.us(0, n - 1));
        }
        if s.chance(1, 4) {
            tags.extend(0..n);
        }
    }
    let mut vals: Vec<Val> = tags.iter().map(|t| Val::Union(*t, Box::new(Val::Null))).collect();
    vals.push(Val::Null);
    let rows: Vec<Val> = vals
        .into_iter()
        .map(|v| match &ty {
            Ty::Union(_) => v,
            Ty::List(_) => Val::List(vec![v]),
            Ty::Struct(f) if f.len() == 1 => Val::Struct(vec![v]),
            _ => Val::Struct(vec![Val::Int(3), v]),
        })
        .collect();
    let c = Case { ty, cfg: Cfg { stride: None, comp: Comp::None, stripe: None }, batches: vec![rows] };
    info.desc = format!("union with {} variants, tags {:?}", n, &tags[..tags.len().min(20)]);
    info.nontrivial = true;
    let r = whole(|| {
        write_to(&c, &PLAIN, Vec::new()).map_err(|(_, e)| e)
    });
    if let Some(b) = verdict(&format!("a union with {} variants", n), n <= 256, r)? {
        let f = OrcFile::parse(&b)?;
        same_types(&f, &c.ty)?;
        diff_rows(&f.decode_all(&c.ty)?, &refs(&c.batches[0]))?;
    }
    Ok(())
}

fn c20_tags(s: &mut Src, info: &mut Info) -> R {
    info.label("union tag");
    let n = match s.below(4) {
        0 => s.us(0, 5),
        1 => s.us(0, 256),
        2 => *s.pick(&[1usize, 2, 127, 128, 129, 254, 255, 256]),
        _ => 256,
    };
    let t: usize = match s.below(5) {
        0 => n,
        1 => n.wrapping_sub(1),
        2 => n + s.us(0, 300),
        3 => *s.pick(&[0usize, 1, 127, 128, 255, 256, 257, 300, 512, 65535, 65536, 1 << 32, (1 << 32) + 1, usize::MAX, usize::MAX - 1, usize::MAX / 2]),
        _ => s.us(0, 2 * n + 1),
    };
    let valid = t < n;
    let ty = Ty::Union((0..n).map(|_| Ty::Long).collect());
    let before = s.us(0, 5);
    info.desc = format!("tag {} in a union with {} variants after {} rows", t, n, before);
    info.nontrivial = true;
    // What the careless caller does: the child value goes where the tag modulo something points.
    let child = if n == 0 { None } else { Some(*s.pick(&[t % n, t % 256 % n, n - 1, 0])) };
    let child = if valid { Some(t) } else { child };
    let r = whole(|| {
        let mut w = Writer::new(Vec::new(), &ty.schema(), Config::new())?;
        if n > 0 {
            for _ in 0..before {
                w.data().unwrap_union().write(0);
                w.data().unwrap_union().child(0).unwrap_long().write(5);
            }
            w.write_batch(before as u64)?;
        }
        w.data().unwrap_union().write(t);
        if let Some(k) = child {
            w.data().unwrap_union().child(k).unwrap_long().write(7);
        }
        w.write_batch(1)?;
        w.finish()
    });
    if let Some(b) = verdict(&info.desc, valid, r)? {
        let f = OrcFile::parse(&b)?;
        let got = f.decode_all(&ty)?;
        if got.last() != Some(&Val::Union(t, Box::new(Val::Int(7)))) {
            return Err(format!("{}: read back as {:?}", info.desc, got.last()));
        }
    }
    Ok(())
}

fn c20_block(s: &mut Src, info: &mut Info) -> R {
    info.label("block size");
    let x = match s.below(5) {
        0 => *s.pick(&[0usize, 1, 2, 3, 0x7ffffe, 0x7fffff, 0x800000, 0x800001, 0xffffff, 0x1000000, 0x1000001, 1 << 31, 1 << 32, (1 << 32) + 100, usize::MAX, usize::MAX - 1]),
        1 => s.us(1, 300),
        2 => s.us(0, 0x7fffff),
        3 => (1usize << s.below(64)).wrapping_add(s.us(0, 2)).wrapping_sub(1),
        _ => s.us(0x800000, 0x3000000),
    };
    let zstd = s.chance(1, 2);
    let valid = (1..=0x7fffff).contains(&x);
    info.desc = format!("{} block size {}", if zstd { "zstd" } else { "snappy" }, x);
    info.nontrivial = true;
    let n = if x < 8 { s.us(0, 30) } else { s.us(0, 400) };
    let rows: Vec<Val> = (0..n).map(|i| Val::Str(format!("row {}", i * i))).collect();
    let r = whole(|| {
        let comp = if zstd { ZstdCompression::new().with_block_size(x).build() } else { SnappyCompression::new().with_block_size(x).build() };
        let mut w = Writer::new(Vec::new(), &Schema::String, Config::new().with_compression(comp))?;
        for r in &rows {
            write_val(w.data(), r, Entry::Mixed(5));
        }
        w.write_batch(n as u64)?;
        w.finish()
    });
    if let Some(b) = verdict(&info.desc, valid, r)? {
        let f = OrcFile::parse(&b)?;
        if f.ps.block_size != Some(x as u64) || f.kind != if zstd { 5 } else { 2 } {
            return Err(format!("{}: the file declares codec {} and block size {:?}", info.desc, f.kind, f.ps.block_size));
        }
        for st in &f.stripes {
            for (k, y) in &st.streams {
                if let Some(c) = y.chunks.iter().find(|c| c.raw_len > x) {
                    return Err(format!("{}: stream {:?} has a chunk of {} bytes", info.desc, k, c.raw_len));
                }
            }
        }
        diff_rows(&f.decode_all(&Ty::Str)?, &refs(&rows))?;
    }
    Ok(())
}

fn c20_level(s: &mut Src, info: &mut Info) -> R {
    info.label("zstd level");
    let l = match s.below(3) {
        0 => s.range(0, 40) as i32 - 10,
        1 => *s.pick(&[0i32, 1, 2, 21, 22, 23, 24, -1, -5, -7, 100, 256, 257, 278, 1 << 16, i32::MAX, i32::MIN, -131072]),
        _ => s.range(1, 22) as i32,
    };
    let valid = (1..=22).contains(&l);
    let block = if s.chance(1, 2) { s.us(100, 3000) } else { 262144 };
    info.desc = format!("zstd level {} block {}", l, block);
    info.nontrivial = true;
    let n = s.us(0, 300);
    let rows: Vec<Val> = (0..n).map(|i| Val::Int((i * i * 7919 % 1000) as i64)).collect();
    let first = s.chance(1, 2);
    let r = whole(|| {
        let z = ZstdCompression::new();
        let comp = if first { z.with_compression_level(l).with_block_size(block) } else { z.with_block_size(block).with_compression_level(l) }.build();
        let mut w = Writer::new(Vec::new(), &Schema::Long, Config::new().with_compression(comp))?;
        for r in &rows {
            write_val(w.data(), r, Entry::Mixed(5));
        }
        w.write_batch(n as u64)?;
        w.finish()
    });
    if let Some(b) = verdict(&info.desc, valid, r)? {
        let f = OrcFile::parse(&b)?;
        if f.kind != 5 {
            return Err(format!("{}: the file declares codec {}", info.desc, f.kind));
        }
        diff_rows(&f.decode_all(&Ty::Long)?, &refs(&rows))?;
    }
    Ok(())
}

fn c20_unwrap(s: &mut Src, info: &mut Info) -> R {
    info.label("column type asked for");
    let ty = gen_schema(s, SchemaOpts { max_cols: 20, ..Default::default() });
    info.desc = format!("every unwrap_* on every column of {}", ty.render());
    info.nontrivial = true;
    let schema = ty.schema();
    let mut w = Writer::new(Vec::new(), &schema, Config::new()).map_err(|e| e.to_string())?;
    for (p, t) in ty.paths().iter().zip(ty.preorder()) {
        let d = column(w.data(), p, &mut || false);
        let me = variant_ptr(d);
        for (name, r) in unwrap_results(d) {
            info.sub += 1;
            match (r, name == unwrap_of(t)) {
                (Ok(x), true) if x == me => {}
                (Ok(_), true) => return Err(format!("{} of a {} column returns something else", name, t.render())),
                (Err(p), true) => return Err(format!("{} of a {} column panics: {}", name, t.render(), p)),
                (Ok(_), false) => return Err(format!("{} of a {} column does not panic", name, t.render())),
                (Err(_), false) => {}
            }
        }
    }
    // Failed requests leave no trace.
    w.write_batch(0).map_err(|e| e.to_string())?;
    let b = w.finish().map_err(|e| e.to_string())?;
    let f = OrcFile::parse(&b)?;
    same_types(&f, &ty)
}

pub fn c20(s: &mut Src, info: &mut Info) -> R {
    match s.weighted(&[3, 4, 4, 3, 3]) {
        0 => c20_variants(s, info),
        1 => c20_tags(s, info),
        2 => c20_block(s, info),
        3 => c20_level(s, info),
        _ => c20_unwrap(s, info),
    }
}

// ---------------------------------------------------------------------------------------------
// C21

fn schema_of_leaf(a: &Schema, t: &Ty) -> bool {
    match (a, t) {
        (Schema::Short, Ty::Short) | (Schema::Int, Ty::Int) | (Schema::Long, Ty::Long) | (Schema::Date, Ty::Date) | (Schema::String, Ty::Str) => true,
        (Schema::Char(n), Ty::Char(m)) | (Schema::VarChar(n), Ty::VarChar(m)) => n == m,
        _ => false,
    }
}

/// Check shape, ids and accessors of a column tree.
fn walk(d: &mut Data, t: &Ty, id: &mut u32) -> R {
    let me = *id;
    *id += 1;
    if d.column_id() != me {
        return Err(format!("column id {} of a node that should be {}", d.column_id(), me));
    }
    let wrong = || Err(format!("column {} should be {} and is not", me, t.render()));
    let p = |d: &mut Data| d as *mut Data as usize;
    match (d, t) {
        (Data::Boolean(_), Ty::Bool) | (Data::Float(_), Ty::Float) | (Data::Double(_), Ty::Double) | (Data::Timestamp(_), Ty::Ts) | (Data::Binary(_), Ty::Bin) => Ok(()),
        (Data::Long(x), Ty::Short | Ty::Int | Ty::Long | Ty::Date) => {
            if schema_of_leaf(x.schema(), t) { Ok(()) } else { wrong() }
        }
        (Data::String(x), Ty::Str | Ty::Char(_) | Ty::VarChar(_)) => {
            if schema_of_leaf(x.schema(), t) { Ok(()) } else { wrong() }
        }
        (Data::Decimal(x), Ty::Dec(a, b)) => {
            if (x.precision(), x.scale()) == (*a, *b) { Ok(()) } else { wrong() }
        }
        (Data::Struct(x), Ty::Struct(f)) => {
            if x.column_id() != me || BaseData::column_id(x) != me {
                return Err(format!("StructData::column_id is {}, should be {}", x.column_id(), me));
            }
            if x.children().len() != f.len() {
                return Err(format!("column {} has {} children, should have {}", me, x.children().len(), f.len()));
            }
            for (i, (_, k)) in f.iter().enumerate() {
                if p(x.child(i)) != p(&mut x.children()[i]) {
                    return Err(format!("column {}: child({}) and children()[{}] differ", me, i, i));
                }
                walk(x.child(i), k, id)?;
            }
            Ok(())
        }
        (Data::Union(x), Ty::Union(f)) => {
            if x.column_id() != me || BaseData::column_id(x) != me {
                return Err(format!("UnionData::column_id is {}, should be {}", x.column_id(), me));
            }
            if x.children().len() != f.len() {
                return Err(format!("column {} has {} children, should have {}", me, x.children().len(), f.len()));
            }
            for (i, k) in f.iter().enumerate() {
                if p(x.child(i)) != p(&mut x.children()[i]) {
                    return Err(format!("column {}: child({}) and children()[{}] differ", me, i, i));
                }
                walk(x.child(i), k, id)?;
            }
            Ok(())
        }
        (Data::List(x), Ty::List(k)) => {
            if x.column_id() != me || BaseData::column_id(x) != me {
                return Err(format!("ListData::column_id is {}, should be {}", x.column_id(), me));
            }
            walk(x.child(), k, id)
        }
        (Data::Map(x), Ty::Map(k, v)) => {
            if x.column_id() != me || BaseData::column_id(x) != me {
                return Err(format!("MapData::column_id is {}, should be {}", x.column_id(), me));
            }
            let (a, b) = (p(x.keys()), p(x.values()));
            let (y, z) = x.children();
            if a == b || p(y) != a || p(z) != b {
                return Err(format!("column {}: keys(), values() and children() disagree", me));
            }
            walk(x.keys(), k, id)?;
            walk(x.values(), v, id)
        }
        _ => wrong(),
    }
}

fn walk_all(d: &mut Data, t: &Ty) -> R {
    let mut id = 0;
    walk(d, t, &mut id)?;
    if id as usize != t.columns() {
        return Err(format!("{} columns, should be {}", id, t.columns()));
    }
    Ok(())
}

pub fn c21(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts { max_cols: 20, root_struct_pct: 65, ..Default::default() }, CaseOpts { max_batches: 10, ..small(1500) });
    if s.chance(3, 4) {
        c.cfg.stripe = Some(match s.below(3) {
            0 => 0,
            1 => s.us(1, 100),
            _ => s.us(1, 1500),
        });
    }
    describe(&c, info);
    let (sink, st) = Sink::new(Plan::good());
    let schema = c.ty.schema();
    let mut w = Writer::new(sink, &schema, c.cfg.build()).map_err(|e| e.to_string())?;
    walk_all(w.data(), &c.ty).map_err(|e| format!("new writer: {}", e))?;
    let fresh = |w: &mut Writer<Sink>, what: &str| -> R {
        walk_all(w.data(), &c.ty).map_err(|e| format!("{}: {}", what, e))?;
        if w.data().estimated_size() != 0 {
            return Err(format!("{}: the column tree is not empty: estimated size {}", what, w.data().estimated_size()));
        }
        guarded(|| w.data().verify_row_count(0)).map_err(|p| format!("{}: the column tree is not empty: {}", what, p))
    };
    fresh(&mut w, "new writer")?;
    let seed = s.below(1 << 16);
    let mut rng = Rng::new(seed);
    let mut flushes = 0;
    for (i, b) in c.batches.iter().enumerate() {
        for (j, r) in b.iter().enumerate() {
            write_val(w.data(), r, Entry::Mixed(5));
            if rng.next() % 64 == 0 {
                info.sub += 1;
                walk_all(w.data(), &c.ty).map_err(|e| format!("in batch {} after row {}: {}", i, j, e))?;
            }
        }
        let before = st.borrow().bytes.len();
        w.write_batch(b.len() as u64).map_err(|e| e.to_string())?;
        info.sub += 1;
        if st.borrow().bytes.len() != before {
            flushes += 1;
            fresh(&mut w, &format!("after batch {}, which closed a stripe", i))?;
        } else {
            walk_all(w.data(), &c.ty).map_err(|e| format!("after batch {}: {}", i, e))?;
        }
    }
    info.label_if(flushes > 0, "stripe closed in between");
    info.nontrivial = flushes > 0;
    w.finish().map_err(|e| e.to_string())?;
    let bytes = &st.borrow().bytes;
    let f = OrcFile::parse(bytes)?;
    same_types(&f, &c.ty)?;
    let all = c.all_rows();
    let all = refs(&all);
    // Each stripe stands alone: its rows, and no more than those.
    let parts = f.split_rows(&all)?;
    for (i, part) in parts.iter().enumerate() {
        diff_rows(&f.decode_stripe(i, &c.ty)?, part).map_err(|e| format!("stripe {}: {}", i, e))?;
    }
    // A stripe's bytes are those of a file with these rows alone.
    if f.stripes.len() > 1 {
        let i = s.us(0, f.stripes.len() - 1);
        let mut one = c.clone();
        one.cfg.stripe = Some(usize::MAX);
        one.batches = vec![parts[i].iter().map(|v| (*v).clone()).collect()];
        let alone = file_how(&one, &How { entry: Entry::Mixed(5), ..PLAIN })?;
        let g = OrcFile::parse(&alone)?;
        let (x, y) = (&f.stripes[i], &g.stripes[0]);
        if f.bytes[x.start..x.end] != g.bytes[y.start..y.end] {
            return Err(format!(
                "stripe {} is not what the same rows give in a file of their own ({})",
                i,
                first_diff(&f.bytes[x.start..x.end], &g.bytes[y.start..y.end])
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C24

/// Bytes of the last two run-length groups of a stream: what may be pending in it (the second to
/// last because completing the last byte of a bit stream can start another group).
fn pending(t: &Ty, kind: u64, b: &[u8]) -> Result<u64, String> {
    let bytes = match (t, kind) {
        (_, PRESENT) | (Ty::Bool, _) | (Ty::Union(_), _) => true,
        (Ty::Short | Ty::Int | Ty::Long | Ty::Date | Ty::Ts, _) | (_, LENGTH) | (Ty::Dec(..), SECONDARY) => false,
        _ => return Ok(0),
    };
    let (mut p, mut last, mut before) = (0usize, 0u64, 0u64);
    while p < b.len() {
        let start = p;
        let c = b[p] as usize;
        p += 1;
        if c < 128 && bytes {
            p += 1;
        } else if bytes {
            p += 256 - c;
        } else {
            let n = if c < 128 { p += 1; 1 } else { 256 - c };
            for _ in 0..n {
                varint128(b, &mut p)?;
            }
        }
        before = last;
        last = (p - start) as u64;
    }
    Ok(last + before)
}

/// Estimates of every column by itself, in pre-order: that of the node less those of its children.
fn own_estimates(d: &mut Data, id: &mut usize, out: &mut Vec<u64>) -> Result<u64, String> {
    let me = *id;
    *id += 1;
    out.push(0);
    let total = d.estimated_size() as u64;
    let mut kids = 0u64;
    match d {
        Data::Struct(x) => {
            for k in x.children() {
                kids += own_estimates(k, id, out)?;
            }
        }
        Data::Union(x) => {
            for k in x.children() {
                kids += own_estimates(k, id, out)?;
            }
        }
        Data::List(x) => kids += own_estimates(x.child(), id, out)?,
        Data::Map(x) => {
            kids += own_estimates(x.keys(), id, out)?;
            kids += own_estimates(x.values(), id, out)?;
        }
        _ => {}
    }
    out[me] = total.checked_sub(kids).ok_or_else(|| format!("column {} is estimated at {}, its children at {}", me, total, kids))?;
    Ok(total)
}

pub fn c24(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts { max_cols: 8, ..Default::default() }, CaseOpts { max_vals: 5000, max_bytes: 60000, max_batches: 12, ..Default::default() });
    // A limit of the size of the data, so that some batches exceed it and others do not.
    c.cfg.stripe = match s.below(6) {
        0 => c.cfg.stripe,
        1 => Some(0),
        2 => Some(s.us(1, 300)),
        3 => Some(s.us(1, 6000)),
        4 => Some(s.us(1000, 60000)),
        _ => None,
    };
    describe(&c, info);
    let exact = s.chance(1, 3);
    let mut at_limit = None;
    if exact && !c.batches.is_empty() {
        // The limit is exactly the estimate after some batch (or one next to it).
        let k = s.us(0, c.batches.len() - 1);
        let mut w = Writer::new(Vec::new(), &c.ty.schema(), Cfg { stripe: Some(usize::MAX), ..c.cfg.clone() }.build()).map_err(|e| e.to_string())?;
        for b in &c.batches[..=k] {
            for r in b {
                write_val(w.data(), r, Entry::Mixed(5));
            }
            w.write_batch(b.len() as u64).map_err(|e| e.to_string())?;
        }
        let e = w.data().estimated_size();
        let d = s.below(3);
        c.cfg.stripe = Some(match d {
            0 => e,
            1 => e.saturating_sub(1),
            _ => e + 1,
        });
        at_limit = Some(d);
        let _ = w.finish();
    }
    info.label_if(at_limit.is_some(), "limit at an estimate");
    let limit = c.cfg.stripe_value();
    let (sink, st) = Sink::new(Plan::good());
    let schema = c.ty.schema();
    let mut w = Writer::new(sink, &schema, c.cfg.build()).map_err(|e| e.to_string())?;
    let mut rows = 0u64;
    let mut closed: Vec<(u64, Vec<u64>)> = Vec::new();
    for (i, b) in c.batches.iter().enumerate() {
        for r in b {
            write_val(w.data(), r, Entry::Mixed(5));
        }
        rows += b.len() as u64;
        let before = st.borrow().bytes.len();
        let est = w.data().estimated_size();
        let mut own = Vec::new();
        own_estimates(w.data(), &mut 0, &mut own)?;
        w.write_batch(b.len() as u64).map_err(|e| e.to_string())?;
        let after = st.borrow().bytes.len();
        let e = |m: &str| Err(format!("after batch {}: estimated size {}, stripe size {}: {}", i, est, limit, m));
        if est > limit {
            info.label("stripe closed");
            if after == before {
                return e("the stripe was not written out");
            }
            closed.push((rows, own));
            rows = 0;
            if w.data().estimated_size() != 0 {
                return e("the estimate did not start again at 0");
            }
        } else {
            info.label("stripe kept open");
            if after != before {
                return e("the sink has received something");
            }
            if w.data().estimated_size() != est {
                return e("write_batch changed the estimate");
            }
        }
        if st.borrow().bytes.len() != w.inner().st.borrow().bytes.len() {
            return Err("inner() is not the sink".into());
        }
    }
    if rows > 0 {
        let mut own = Vec::new();
        own_estimates(w.data(), &mut 0, &mut own)?;
        closed.push((rows, own));
    }
    w.finish().map_err(|e| e.to_string())?;
    let bytes = &st.borrow().bytes;
    let f = OrcFile::parse(bytes)?;
    stripes_label(&f, info);
    if f.stripes.iter().map(|s| s.rows).collect::<Vec<_>>() != closed.iter().map(|c| c.0).collect::<Vec<_>>() {
        return Err(format!("stripes {:?}, but stripes were closed after {:?} rows", f.stripes.iter().map(|s| s.rows).collect::<Vec<_>>(), closed.iter().map(|c| c.0).collect::<Vec<_>>()));
    }
    info.nontrivial = info.labels.contains(&"stripe closed") && info.labels.contains(&"stripe kept open");
    let all = c.all_rows();
    let all = refs(&all);
    let parts = f.split_rows(&all)?;
    let nodes = c.ty.preorder();
    for (i, st) in f.stripes.iter().enumerate() {
        let flat = flatten(&c.ty, &parts[i]);
        for (id, t) in nodes.iter().enumerate() {
            let est = closed[i].1[id];
            let streams: Vec<_> = st.streams.iter().filter(|(k, _)| k.0 == id as u64 && k.1 != ROW_INDEX).collect();
            let real: u64 = streams.iter().map(|(_, x)| x.stored_len as u64).sum();
            let chunks: u64 = streams.iter().map(|(_, x)| x.chunks.len() as u64).sum();
            let mut slack = 0;
            for (k, x) in &streams {
                slack += pending(t, k.1, &x.data)?;
            }
            let e = |m: String| Err(format!("stripe {} column {} ({}) has {} bytes of data, but was estimated at {} ({})", i, id, t.render(), real, est, m));
            if real > est + slack + 3 * chunks {
                return e(format!("pending in the last groups {}, {} chunks", slack, chunks));
            }
            // A buffered PRESENT stream that is dropped because there are no nulls.
            let dropped = if st.streams.contains_key(&(id as u64, PRESENT)) { 0 } else { 2 * (flat[id].vals.len() as u64 / 1040 + 1) + 2 };
            // Every stream may have one block that is not compressed yet.
            let blocks: u64 = match c.cfg.comp {
                Comp::None => 0,
                _ => streams.iter().map(|(_, x)| (x.data.len() as u64).min(c.cfg.comp.block() as u64)).sum(),
            };
            // An estimate may count the pending values, however small they are when they are encoded (a run of
            // 130 values takes a few bytes).
            let counted = slack + 132 * (streams.len() as u64 + 1);
            if est > real + dropped + blocks + counted {
                return e(format!("dropped PRESENT stream at most {}, last blocks at most {}, pending at most {}", dropped, blocks, counted));
            }
        }
    }
    Ok(())
}
