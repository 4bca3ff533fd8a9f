//! C27: what the sink holds at every point of a history, and what an abandoned writer leaves behind.

use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_file::{describe, first_diff, same_types};
use crate::reader::OrcFile;
use orc_format::writer::Writer;
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

type R = Result<(), String>;

/// How the user stops.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Stop {
    /// Drop after `k` batches.
    Drop,
    /// Drop with the values of another batch (or some of them) written.
    Pending,
    /// `write_batch` with a wrong row count.
    Mismatch,
    /// A panic of the user's own while values are written.
    Panic,
}

/// The length of the file after `Writer::new` and after each batch, and the finished file.
fn whole(c: &Case, how: &How) -> Result<(Vec<usize>, Vec<u8>), String> {
    let (sink, st) = Sink::new(Plan::good());
    let len = || st.borrow().bytes.len();
    let mut at = Vec::new();
    let schema = c.ty.schema();
    let mut w = Writer::new(sink, &schema, c.cfg.build()).map_err(|e| e.to_string())?;
    at.push(len());
    for (i, b) in c.batches.iter().enumerate() {
        let rows: Vec<&Val> = b.iter().collect();
        write_batch_ordered(w.data(), &c.ty, &rows, how.order, how.seed.wrapping_add(i as u64), how.entry);
        if len() != at[i] {
            return Err(format!("writing the values of batch {} delivers {} bytes", i, len() - at[i]));
        }
        w.write_batch(b.len() as u64).map_err(|e| e.to_string())?;
        at.push(len());
    }
    let back = w.finish().map_err(|e| e.to_string())?;
    if !Rc::ptr_eq(&back.st, &st) {
        return Err("finish returns another sink".into());
    }
    let n = len();
    drop(back);
    if len() != n {
        return Err("dropping the returned sink delivers bytes".into());
    }
    let bytes = st.borrow().bytes.clone();
    Ok((at, bytes))
}

fn abandon(c: &Case, how: &How, k: usize, stop: Stop, part: usize) -> Result<(Vec<u8>, bool), String> {
    let (sink, st) = Sink::new(Plan::good());
    let schema = c.ty.schema();
    let st2: Rc<RefCell<SinkState>> = st.clone();
    let mut as_meant = true;
    let r = guarded(|| -> Result<u64, String> {
        let mut w = Writer::new(sink, &schema, c.cfg.build()).map_err(|e| e.to_string())?;
        for (i, b) in c.batches.iter().enumerate().take(k) {
            let rows: Vec<&Val> = b.iter().collect();
            write_batch_ordered(w.data(), &c.ty, &rows, how.order, how.seed.wrapping_add(i as u64), how.entry);
            w.write_batch(b.len() as u64).map_err(|e| e.to_string())?;
        }
        if stop != Stop::Drop {
            let b = &c.batches[k];
            for r in b.iter().take(part) {
                write_val(w.data(), r, Entry::Mixed(3));
            }
            let n = b.len().min(part) as u64;
            if stop == Stop::Panic {
                panic!("of the user");
            }
            if stop == Stop::Mismatch {
                let mut more = how.seed % 3 == 0 || n == 0;
                more |= n == 1 && how.seed % 2 == 0;
                let r = guarded(|| w.write_batch(if more { n + 1 } else { n - 1 }));
                as_meant = r.is_err();
            }
        }
        let calls = st2.borrow().calls;
        drop(w);
        Ok(calls)
    });
    match (r, stop) {
        (Err(_), Stop::Panic) => {}
        (Err(p), _) => return Err(format!("writer panicked: {}", p)),
        (Ok(Err(e)), _) => return Err(format!("writer failed: {}", e)),
        (Ok(Ok(calls)), _) => {
            if st.borrow().calls != calls {
                return Err("dropping the writer calls the sink".into());
            }
        }
    }
    let bytes = st.borrow().bytes.clone();
    Ok((bytes, as_meant))
}

/// A sink error, after which the user gives up.
fn give_up(c: &Case, how: &How, plan: &Plan) -> Result<(Vec<u8>, bool), String> {
    let (sink, st) = Sink::new(plan.clone());
    let mut slot = None;
    let schema = c.ty.schema();
    let r = guarded(|| -> io::Result<()> {
        slot = Some(Writer::new(sink, &schema, c.cfg.build())?);
        let w = slot.as_mut().unwrap();
        for (i, b) in c.batches.iter().enumerate() {
            let rows: Vec<&Val> = b.iter().collect();
            write_batch_ordered(w.data(), &c.ty, &rows, how.order, how.seed.wrapping_add(i as u64), how.entry);
            w.write_batch(b.len() as u64)?;
        }
        slot.take().unwrap().finish().map(|_| ())
    });
    let calls = st.borrow().calls;
    drop(slot);
    if st.borrow().calls != calls {
        return Err("dropping the writer after a reported failure calls the sink".into());
    }
    let bytes = st.borrow().bytes.clone();
    match r {
        Ok(r) => Ok((bytes, r.is_err())),
        Err(p) => Err(format!("writer panicked: {}", p)),
    }
}

pub fn c27(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts { max_cols: 8, ..Default::default() }, CaseOpts { max_vals: 3000, max_bytes: 20_000, max_batches: 10, ..Default::default() });
    c.cfg.stripe = match s.below(6) {
        0 => c.cfg.stripe,
        1 => Some(0),
        2 => Some(s.us(1, 300)),
        3 => Some(s.us(1, 3000)),
        4 => Some(s.us(500, 30_000)),
        _ => None,
    };
    describe(&c, info);
    let how = gen_how(s);
    let (at, good) = guarded(|| whole(&c, &how)).map_err(|p| format!("writer panicked: {}", p))??;
    let f = OrcFile::parse(&good)?;
    same_types(&f, &c.ty)?;
    let mut ends = vec![(3usize, 0u64)];
    for st in &f.stripes {
        ends.push((st.end, ends.last().unwrap().1 + st.rows));
    }
    let mut rows = 0;
    let mut delivered = 0;
    for (i, n) in at.iter().enumerate() {
        if i > 0 {
            rows += c.batches[i - 1].len() as u64;
        }
        let where_ = if i == 0 { "Writer::new".to_string() } else { format!("batch {}", i - 1) };
        let k = match ends.iter().position(|e| e.0 == *n) {
            Some(k) => k,
            None if *n == 0 => 0,
            None => return Err(format!("after {} the sink holds {} bytes, which is not the header and whole stripes (they end at {:?})", where_, n, ends)),
        };
        if k > delivered && ends[k].1 != rows {
            return Err(format!("after {}, {} rows are committed, the stripes that are delivered hold {}", where_, rows, ends[k].1));
        }
        delivered = k;
    }
    info.label_if(delivered > 0, "stripes before finish");
    info.label_if(delivered + 1 < ends.len(), "last stripe from finish");
    info.nontrivial = delivered > 0;
    let tail_cut = |b: &[u8], what: &str| -> R {
        if b != good.get(..b.len()).unwrap_or(&[]) {
            return Err(format!("{}: what the sink holds is not the beginning of the file ({})", what, first_diff(b, &good)));
        }
        if b.len() < good.len() && OrcFile::parse(b).is_ok() {
            return Err(format!("{}: the first {} of {} bytes pass for a complete file", what, b.len(), good.len()));
        }
        Ok(())
    };
    for _ in 0..3 {
        info.sub += 1;
        let mut stop = *s.pick(&[Stop::Drop, Stop::Pending, Stop::Mismatch, Stop::Panic]);
        let k = s.us(0, c.batches.len());
        if k == c.batches.len() {
            stop = Stop::Drop;
        }
        let part = s.pick(&[usize::MAX, 1, 2, 7, 100]).clone();
        let what = format!("{:?} after {} batches", stop, k);
        let (b, as_meant) = abandon(&c, &how, k, stop, part).map_err(|e| format!("{}: {}", what, e))?;
        tail_cut(&b, &what)?;
        if as_meant && b.len() != at[k] {
            return Err(format!("{}: the sink holds {} bytes, {} after the batches", what, b.len(), at[k]));
        }
        info.label(match stop {
            Stop::Drop => "dropped",
            Stop::Pending => "dropped with values pending",
            Stop::Mismatch => "refused batch",
            Stop::Panic => "user panic",
        });
    }
    if s.chance(1, 2) {
        // Where a fault can strike depends on how the writer calls the sink.
        let short = if s.chance(1, 3) { s.us(1, 100) } else { 0 };
        let base = Plan { short, seed: s.below(1000), ..Plan::good() };
        let (_, failed) = give_up(&c, &how, &base)?;
        if failed {
            return Err("a history without a fault fails".into());
        }
        let calls = {
            let (sink, st) = Sink::new(base.clone());
            let _ = write_to(&c, &how, sink);
            let n = st.borrow().calls;
            n
        };
        for _ in 0..3 {
            info.sub += 1;
            let at = s.below(calls.max(1));
            let fault = if s.chance(1, 5) { Fault::Zero } else { Fault::Err(*s.pick(&[io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::BrokenPipe])) };
            let plan = Plan { fail_at: Some(at), times: if s.chance(1, 2) { 1 } else { u64::MAX }, fault, ..base.clone() };
            let (b, failed) = give_up(&c, &how, &plan)?;
            if failed {
                info.label("gave up after a sink error");
                tail_cut(&b, &format!("{:?} at call {} of {}", fault, at, calls))?;
            }
        }
    }
    Ok(())
}
