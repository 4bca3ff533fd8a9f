//! Driving the writer under test through its public API.

use crate::engine::{guarded, hash64, Rng, Src};
use crate::model::*;
use orc_format::writer::data::{Data, GenericData};
use orc_format::writer::Writer;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

/// How leaf values are written where the API offers a choice.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Entry {
    /// write_i128, write_nanos
    Wide,
    /// write_i64 where the value fits, write_nanos_epoch
    Narrow,
    /// One of the two, depending on the value and this number
    Mixed(u64),
}

impl Entry {
    fn narrow(self, v: i128) -> bool {
        match self {
            Entry::Wide => false,
            Entry::Narrow => true,
            Entry::Mixed(k) => hash64(&[v as u64, k]) & 1 == 1,
        }
    }
}

/// One value of one column, without its children.
pub fn write_op(d: &mut Data, v: &Val, e: Entry) {
    match v {
        Val::Null => d.write_null(),
        Val::Bool(b) => d.unwrap_boolean().write(*b),
        Val::Int(i) => d.unwrap_long().write(*i),
        Val::F32(b) => d.unwrap_float().write(f32::from_bits(*b)),
        Val::F64(b) => d.unwrap_double().write(f64::from_bits(*b)),
        Val::Ts(s, n) => {
            let t = d.unwrap_timestamp();
            match (e.narrow(*s as i128 ^ *n as i128), s.checked_add(1_420_070_400)) {
                (true, Some(u)) => t.write_nanos_epoch(u, *n),
                _ => t.write_nanos(*s, *n),
            }
        }
        Val::Dec(x) => {
            let t = d.unwrap_decimal();
            match (e.narrow(*x), i64::try_from(*x)) {
                (true, Ok(y)) => t.write_i64(y),
                _ => t.write_i128(*x),
            }
        }
        Val::Str(s) => d.unwrap_string().write(s),
        Val::Bin(b) => d.unwrap_binary().write(b),
        Val::Struct(_) => d.unwrap_struct().write(),
        Val::List(v) => d.unwrap_list().write(v.len() as u64),
        Val::Map(v) => d.unwrap_map().write(v.len() as u64),
        Val::Union(t, _) => d.unwrap_union().write(*t),
    }
}

/// A value with its children, depth first.
pub fn write_val(d: &mut Data, v: &Val, e: Entry) {
    write_op(d, v, e);
    match v {
        Val::Struct(vs) => {
            let s = d.unwrap_struct();
            for (i, x) in vs.iter().enumerate() {
                write_val(s.child(i), x, e);
            }
        }
        Val::List(vs) => {
            let l = d.unwrap_list();
            for x in vs {
                write_val(l.child(), x, e);
            }
        }
        Val::Map(vs) => {
            let m = d.unwrap_map();
            for (k, x) in vs {
                write_val(m.keys(), k, e);
                write_val(m.values(), x, e);
            }
        }
        Val::Union(t, x) => write_val(d.unwrap_union().child(*t), x, e),
        _ => {}
    }
}

/// The column at a path of child indices, reached by one of the equivalent accessors.
pub fn column<'a>(d: &'a mut Data, path: &[usize], how: &mut dyn FnMut() -> bool) -> &'a mut Data {
    let mut d = d;
    for &i in path {
        let alt = how();
        d = match d {
            Data::Struct(s) => {
                if alt {
                    &mut s.children()[i]
                } else {
                    s.child(i)
                }
            }
            Data::List(l) => l.child(),
            Data::Map(m) => match (i, alt) {
                (0, false) => m.keys(),
                (_, false) => m.values(),
                (0, true) => m.children().0,
                (_, true) => m.children().1,
            },
            Data::Union(u) => {
                if alt {
                    &mut u.children()[i]
                } else {
                    u.child(i)
                }
            }
            _ => panic!("harness: path into a leaf"),
        };
    }
    d
}

/// In which order the values of a batch reach the writer.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Order {
    Rows,
    /// Whole columns, in a random order of the columns.
    Columns,
    /// Whole columns, children before parents.
    ColumnsReverse,
    /// Random interleaving of single values.
    Mixed,
    /// Random interleaving of bursts.
    Bursts,
}

pub fn write_batch_ordered(w: &mut Data, ty: &Ty, rows: &[&Val], order: Order, seed: u64, e: Entry) {
    if order == Order::Rows {
        for r in rows {
            write_val(w, r, e);
        }
        return;
    }
    let cols = flatten(ty, rows);
    let paths = ty.paths();
    let mut rng = Rng::new(seed);
    let mut next = vec![0usize; cols.len()];
    let mut open: Vec<usize> = (0..cols.len()).filter(|c| !cols[*c].vals.is_empty()).collect();
    match order {
        Order::ColumnsReverse => open.reverse(),
        Order::Columns => {
            for i in (1..open.len()).rev() {
                let j = (rng.next() % (i as u64 + 1)) as usize;
                open.swap(i, j);
            }
        }
        _ => {}
    }
    while !open.is_empty() {
        let k = match order {
            Order::Mixed | Order::Bursts => (rng.next() % open.len() as u64) as usize,
            _ => 0,
        };
        let c = open[k];
        let left = cols[c].vals.len() - next[c];
        let n = match order {
            Order::Mixed => 1,
            Order::Bursts => (1 + rng.next() % 150) as usize,
            _ => left,
        }
        .min(left);
        let d = column(w, &paths[c], &mut || rng.next() & 1 == 1);
        for v in &cols[c].vals[next[c]..next[c] + n] {
            write_op(d, v, e);
        }
        next[c] += n;
        if next[c] == cols[c].vals.len() {
            open.remove(k);
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct How {
    pub order: Order,
    pub seed: u64,
    pub entry: Entry,
}

pub const PLAIN: How = How { order: Order::Rows, seed: 0, entry: Entry::Wide };

pub fn gen_how(s: &mut Src) -> How {
    How {
        order: *s.pick(&[Order::Rows, Order::Columns, Order::ColumnsReverse, Order::Mixed, Order::Bursts]),
        seed: s.below(1 << 16),
        entry: gen_entry(s),
    }
}

pub fn gen_entry(s: &mut Src) -> Entry {
    match s.below(3) {
        0 => Entry::Wide,
        1 => Entry::Narrow,
        _ => Entry::Mixed(s.below(1 << 16)),
    }
}

/// Row by row, through any entry points.
pub fn gen_entry_how(s: &mut Src) -> How {
    How { entry: gen_entry(s), ..PLAIN }
}

/// Write a case to any sink. Err: the I/O error, with the step it came from.
pub fn write_to<W: Write>(c: &Case, how: &How, sink: W) -> Result<W, (String, io::Error)> {
    let schema = c.ty.schema();
    let mut w = Writer::new(sink, &schema, c.cfg.build()).map_err(|e| ("new".to_string(), e))?;
    for (i, b) in c.batches.iter().enumerate() {
        let rows: Vec<&Val> = b.iter().collect();
        write_batch_ordered(w.data(), &c.ty, &rows, how.order, how.seed.wrapping_add(i as u64), how.entry);
        w.write_batch(rows.len() as u64).map_err(|e| (format!("write_batch {}", i), e))?;
    }
    w.finish().map_err(|e| ("finish".to_string(), e))
}

/// The file of a case. A panic or an error of the writer is an Err.
pub fn file_how(c: &Case, how: &How) -> Result<Vec<u8>, String> {
    match guarded(|| write_to(c, how, Vec::new())) {
        Ok(Ok(v)) => Ok(v),
        Ok(Err((at, e))) => Err(format!("writer failed at {}: {}", at, e)),
        Err(p) => Err(format!("writer panicked: {}", p)),
    }
}

pub fn file(c: &Case) -> Result<Vec<u8>, String> {
    file_how(c, &PLAIN)
}

/// A sink whose state outlives the writer.
#[derive(Default)]
pub struct SinkState {
    pub bytes: Vec<u8>,
    pub calls: u64,
    pub flushes: u64,
    /// Bytes accepted after the last successful flush.
    pub unflushed: bool,
    pub errors: u64,
    pub zero: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Err(io::ErrorKind),
    Zero,
}

#[derive(Clone, Debug)]
pub struct Plan {
    /// Fail the call with this number (writes and flushes counted together), and the following
    /// ones until `times` calls have failed.
    pub fail_at: Option<u64>,
    pub times: u64,
    pub fault: Fault,
    /// 0: accept everything; otherwise accept at most a random 1..=short bytes per call.
    pub short: usize,
    /// Return Interrupted in this many of 16 calls.
    pub interrupt: u64,
    pub seed: u64,
}

impl Plan {
    pub fn good() -> Plan {
        Plan { fail_at: None, times: 0, fault: Fault::Zero, short: 0, interrupt: 0, seed: 0 }
    }
}

pub struct Sink {
    pub st: Rc<RefCell<SinkState>>,
    plan: Plan,
    rng: Rng,
    failed: u64,
}

impl Sink {
    pub fn new(plan: Plan) -> (Sink, Rc<RefCell<SinkState>>) {
        let st = Rc::new(RefCell::new(SinkState::default()));
        let rng = Rng::new(plan.seed);
        (Sink { st: st.clone(), plan, rng, failed: 0 }, st)
    }
    fn fault(&mut self, flush: bool) -> Option<io::Result<usize>> {
        let mut s = self.st.borrow_mut();
        let n = s.calls;
        s.calls += 1;
        if let Some(k) = self.plan.fail_at {
            if n >= k && self.failed < self.plan.times {
                self.failed += 1;
                return Some(match self.plan.fault {
                    Fault::Err(kind) => {
                        s.errors += 1;
                        Err(io::Error::new(kind, "injected"))
                    }
                    Fault::Zero if flush => {
                        s.errors += 1;
                        Err(io::Error::new(io::ErrorKind::Other, "injected"))
                    }
                    Fault::Zero => {
                        s.zero += 1;
                        Ok(0)
                    }
                });
            }
        }
        None
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if let Some(r) = self.fault(false) {
            return r;
        }
        if self.plan.interrupt > 0 && self.rng.next() % 16 < self.plan.interrupt {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "injected interrupt"));
        }
        let n = if self.plan.short == 0 { b.len() } else { (1 + (self.rng.next() % self.plan.short as u64) as usize).min(b.len()) };
        let mut s = self.st.borrow_mut();
        s.bytes.extend_from_slice(&b[..n]);
        s.unflushed = true;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Some(r) = self.fault(true) {
            return r.map(|_| ());
        }
        let mut s = self.st.borrow_mut();
        s.flushes += 1;
        s.unflushed = false;
        Ok(())
    }
}
