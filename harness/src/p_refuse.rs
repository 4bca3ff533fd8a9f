//! C29: a refused call leaves no trace.

use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_file::{describe, first_diff, refs};
use crate::p_hist::*;
use orc_format::schema::Schema;
use orc_format::writer::data::{BaseData, Data, GenericData};
use orc_format::writer::{Config, Writer};

type R = Result<(), String>;

/// An index that does not exist in a list of `n`.
fn beyond(s: &mut Src, n: usize) -> usize {
    match s.below(5) {
        0 | 1 => n,
        2 => n.saturating_add(s.us(1, 3)),
        3 => n.saturating_add(1 << s.below(63)),
        _ => usize::MAX - s.us(0, 1),
    }
}

/// A call of a column that has to be refused: what was called, and whether it was refused.
fn bad_call(s: &mut Src, d: &mut Data, t: &Ty) -> (String, bool) {
    let kind = s.below(3);
    match d {
        Data::Union(u) if kind != 0 => {
            let i = beyond(s, u.children().len());
            if kind == 1 {
                return (format!("write of tag {}", i), guarded(|| u.write(i)).is_err());
            }
            (format!("access to variant {}", i), guarded(|| u.child(i).write_null()).is_err())
        }
        Data::Timestamp(x) if kind != 0 => {
            let sec = i64::MIN + s.below(1_420_070_400) as i64;
            (format!("write_nanos_epoch({})", sec), guarded(|| x.write_nanos_epoch(sec, 1)).is_err())
        }
        Data::Struct(x) if kind != 0 => {
            let i = beyond(s, x.children().len());
            (format!("access to field {}", i), guarded(|| x.child(i).write_null()).is_err())
        }
        d => {
            macro_rules! bad {
                ($($k:literal $n:ident $call:expr;)*) => {
                    match s.below(12) {
                        $($k if unwrap_of(t) != stringify!($n) => {
                            let call: fn(&mut Data) = $call;
                            (stringify!($n).to_string(), guarded(|| call(d)).is_err())
                        })*
                        _ => ("nothing".into(), true),
                    }
                };
            }
            bad! {
                0 unwrap_boolean |d| d.unwrap_boolean().write(true);
                1 unwrap_long |d| d.unwrap_long().write(1);
                2 unwrap_float |d| d.unwrap_float().write(1.0);
                3 unwrap_double |d| d.unwrap_double().write(1.0);
                4 unwrap_timestamp |d| d.unwrap_timestamp().write_nanos(1, 1);
                5 unwrap_decimal |d| d.unwrap_decimal().write_i64(1);
                6 unwrap_string |d| d.unwrap_string().write("x");
                7 unwrap_binary |d| d.unwrap_binary().write(b"x");
                8 unwrap_struct |d| d.unwrap_struct().write();
                9 unwrap_list |d| d.unwrap_list().write(0);
                10 unwrap_map |d| d.unwrap_map().write(0);
                11 unwrap_union |d| d.unwrap_union().write(0);
            }
        }
    }
}

fn nodes<'a>(t: &'a Ty, out: &mut Vec<&'a Ty>) {
    out.push(t);
    for c in t.children() {
        nodes(c, out);
    }
}

#[derive(Default)]
struct Counts {
    calls: u64,
    batches: u64,
}

fn refusals(s: &mut Src, c: &Case, n: &mut Counts) -> Result<Vec<u8>, String> {
    let (sink, st) = Sink::new(Plan::good());
    let schema = c.ty.schema();
    let mut w = Writer::new(sink, &schema, c.cfg.build()).map_err(|e| e.to_string())?;
    let paths = c.ty.paths();
    let mut tys = Vec::new();
    nodes(&c.ty, &mut tys);
    for (i, b) in c.batches.iter().enumerate() {
        let rows = refs(b);
        let all: Vec<Vec<Op>> = flatten(&c.ty, &rows).iter().map(to_ops).collect();
        let mut done: Vec<Vec<Op>> = vec![Vec::new(); all.len()];
        let mut rng = Rng::new(s.below(1 << 16));
        let mut stops = s.us(0, 3);
        loop {
            // some more values
            let open: Vec<usize> = (0..all.len()).filter(|k| done[*k].len() < all[*k].len()).collect();
            let last = stops == 0;
            for k in open {
                let left = all[k].len() - done[k].len();
                let m = if last {
                    left
                } else {
                    match s.below(3) {
                        0 => 0,
                        1 => s.us(0, left),
                        _ => left,
                    }
                };
                let at = done[k].len();
                let d = column(w.data(), &paths[k], &mut || rng.next() & 1 == 1);
                for o in &all[k][at..at + m] {
                    apply_op(d, o);
                }
                done[k].extend_from_slice(&all[k][at..at + m]);
            }
            // a refused call
            let sizes = (w.data().estimated_size(), st.borrow().bytes.len());
            if s.chance(1, 2) {
                let k = s.below(all.len() as u64) as usize;
                let d = column(w.data(), &paths[k], &mut || rng.next() & 1 == 1);
                let (what, refused) = bad_call(s, d, tys[k]);
                if !refused {
                    return Err(format!("column {} ({}): {} is not refused", k, tys[k].render(), what));
                }
                if what != "nothing" {
                    n.calls += 1;
                }
            }
            // a refused batch
            let have = done[0].len() as u64;
            let rows = match s.below(6) {
                0 => have + s.range(1, 3) as u64,
                1 => have.wrapping_add(1 << s.below(64)),
                2 => have.wrapping_sub(s.range(1, 3) as u64),
                3 => b.len() as u64,
                _ => have,
            };
            if (!last || s.chance(1, 2)) && mismatch(&c.ty, &done, rows).is_some() {
                let r = guarded(|| w.write_batch(rows));
                if r.is_ok() {
                    return Err(format!("batch {}: write_batch({}) accepts {}", i, rows, mismatch(&c.ty, &done, rows).unwrap_or_default()));
                }
                n.batches += 1;
            }
            let after = (w.data().estimated_size(), st.borrow().bytes.len());
            if after != sizes {
                return Err(format!("batch {}: refused calls change the estimate and what is delivered from {:?} to {:?}", i, sizes, after));
            }
            if last {
                break;
            }
            stops -= 1;
        }
        match guarded(|| w.write_batch(b.len() as u64)) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err(format!("after a refused call, write_batch {} fails: {}", i, e)),
            Err(p) => return Err(format!("after a refused call, write_batch {} with matching counts panics: {}", i, p)),
        }
    }
    match guarded(|| w.finish()) {
        Ok(Ok(_)) => {}
        Ok(Err(e)) => return Err(format!("after a refused call, finish fails: {}", e)),
        Err(p) => return Err(format!("after a refused call, finish panics: {}", p)),
    }
    let b = st.borrow().bytes.clone();
    Ok(b)
}

/// A writer that is refused delivers nothing.
fn no_writer(s: &mut Src, info: &mut Info) -> R {
    let n = s.us(257, 300);
    let mut schema = Schema::Union((0..n).map(|_| Schema::Boolean).collect());
    for _ in 0..s.us(0, 3) {
        schema = match s.below(3) {
            0 => Schema::List(Box::new(schema)),
            1 => Schema::Map(Box::new(Schema::Long), Box::new(schema)),
            _ => Schema::Union(vec![Schema::Long, schema]),
        };
    }
    info.label("refused writer");
    info.desc = format!("a schema with a union of {} variants", n);
    let (sink, st) = Sink::new(Plan::good());
    if guarded(|| Writer::new(sink, &schema, Config::new()).map(|_| ())).is_ok() {
        return Err(format!("a union of {} variants is accepted", n));
    }
    if !st.borrow().bytes.is_empty() {
        return Err(format!("a refused writer delivers {:?}", st.borrow().bytes));
    }
    Ok(())
}

pub fn c29(s: &mut Src, info: &mut Info) -> R {
    if s.chance(1, 100) {
        return no_writer(s, info);
    }
    let mut c = gen_case(s, SchemaOpts { root_struct_pct: 60, ..Default::default() }, small(500));
    if s.chance(1, 3) {
        c.cfg.stripe = Some(s.us(0, 60));
    }
    describe(&c, info);
    let want = file(&c)?;
    for _ in 0..s.us(1, 3) {
        info.sub += 1;
        let mut n = Counts::default();
        let got = refusals(s, &c, &mut n)?;
        if got != want {
            return Err(format!("{} refused calls and {} refused batches change the file: {}", n.calls, n.batches, first_diff(&want, &got)));
        }
        info.label_if(n.calls > 0, "refused call");
        info.label_if(n.batches > 0, "refused batch");
        info.nontrivial |= n.calls + n.batches > 0;
    }
    Ok(())
}
