//! C25: the memory a writer holds.

use crate::alloc::live;
use crate::drive::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::*;
use crate::p_file::describe;
use orc_format::writer::data::BaseData;
use orc_format::writer::Writer;
use std::io::{self, Write};

/// Keeps nothing but the number of bytes.
#[derive(Default)]
struct Drain(u64);

type R = Result<(), String>;

impl Write for Drain {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn longest(v: &Val) -> i64 {
    match v {
        Val::Str(s) => s.len() as i64,
        Val::Struct(vs) | Val::List(vs) => vs.iter().map(longest).max().unwrap_or(0),
        Val::Map(vs) => vs.iter().map(|(k, v)| longest(k).max(longest(v))).max().unwrap_or(0),
        Val::Union(_, v) => longest(v),
        _ => 0,
    }
}

/// Values of all columns in a row.
fn values(v: &Val) -> i64 {
    1 + match v {
        Val::Struct(vs) | Val::List(vs) => vs.iter().map(values).sum(),
        Val::Map(vs) => vs.iter().map(|(k, v)| values(k) + values(v)).sum(),
        Val::Union(_, v) => values(v),
        _ => 0,
    }
}

pub fn c25(s: &mut Src, info: &mut Info) -> R {
    let so = SchemaOpts { max_cols: 5, ..Default::default() };
    let mut cfg = gen_cfg(s);
    match &mut cfg.comp {
        Comp::Snappy(b) => *b = Some(s.us(64, 1024)),
        Comp::Zstd(b, l) => {
            *b = Some(s.us(300, 2048));
            *l = Some(s.range(1, 4) as i32);
        }
        _ => {}
    }
    cfg.stride = Some(*s.pick(&[10_000u32, 100, 1000, 300]));
    let ty = if s.chance(1, 2) {
        let leaf = if s.chance(1, 2) { Ty::Bin } else { gen_leaf_ty(s) };
        wrap_leaf(s, leaf)
    } else {
        gen_schema(s, so)
    };
    let co = limit_for(&cfg, CaseOpts { max_vals: 3000, max_bytes: 120_000, max_batches: 3, ..Default::default() });
    let batches = gen_batches(s, &ty, cfg.comp.block().max(1), &co);
    cfg.stripe = Some(match s.below(3) {
        0 => s.us(0, 2000),
        1 => s.us(2000, 20_000),
        _ => s.us(20_000, 80_000),
    });
    let c = Case { ty, cfg, batches };
    describe(&c, info);
    let per_cycle: i64 = c.batches.iter().flatten().map(values).sum();
    if per_cycle == 0 {
        return Ok(());
    }
    let max_str = c.batches.iter().flatten().map(longest).max().unwrap_or(0);
    let cols = c.ty.columns() as i64;
    let stride = c.cfg.stride_value() as i64;
    let block = c.cfg.comp.block() as i64;
    let names: i64 = c.ty.preorder().iter().map(|t| if let Ty::Struct(f) = t { f.iter().map(|x| x.0.len() as i64).sum() } else { 0 }).sum();
    let schema = c.ty.schema();
    let limit = c.cfg.stripe_value() as i64;
    // The batches again and again: enough cycles for the data to dwarf what may be held.
    let budget = if matches!(c.cfg.comp, Comp::Zstd(..)) { 20_000 } else { 100_000 };
    let cycles = (s.range(1, budget) as i64 / per_cycle).clamp(1, 400);
    let finish = s.chance(3, 4);
    // Once before, for anything that is allocated once.
    file(&Case { batches: c.batches.iter().take(1).cloned().collect(), ..c.clone() })?;

    let base = live();
    let mut w = Writer::new(Drain::default(), &schema, c.cfg.build()).map_err(|e| e.to_string())?;
    let fresh = live() - base;
    let own = cols * (60_000 + 48 * block) + 20 * names;
    let fixed = 4 * fresh + own;
    if fresh > own {
        return Err(format!("a fresh writer for {} columns holds {} bytes", cols, fresh));
    }
    let (mut stripes, mut open_vals, mut total) = (0i64, 0i64, 0i64);
    let mut last_allowed = fixed;
    for cycle in 0..cycles {
        for (i, b) in c.batches.iter().enumerate() {
            for r in b {
                write_val(w.data(), r, Entry::Mixed(5));
                open_vals += values(r);
            }
            let before = w.inner().0;
            w.write_batch(b.len() as u64).map_err(|e| e.to_string())?;
            if w.inner().0 != before {
                stripes += 1;
                total += open_vals;
                open_vals = 0;
            }
            let est = w.data().estimated_size() as i64;
            let held = live() - base;
            let allowed = fixed + 8 * est + (open_vals / stride) * (1200 + 6 * max_str) + (stripes + 1) * (3000 + cols * (1600 + 6 * max_str));
            last_allowed = allowed;
            if held > allowed {
                return Err(format!(
                    "after batch {} of cycle {} ({} stripes closed, {} bytes written, stripe size {}, estimated size {}): the writer holds {} bytes, {} after it was made; {} would do",
                    i, cycle, stripes, w.inner().0, limit, est, held, fresh, allowed
                ));
            }
        }
    }
    let out = w.inner().0 as i64;
    if finish {
        let d = w.finish().map_err(|e| e.to_string())?;
        if (d.0 as i64) < out {
            return Err("finish lost the sink's bytes".into());
        }
    } else {
        drop(w);
    }
    let left = live() - base;
    if left > 200 {
        return Err(format!("{} bytes are still held after the writer was {}", left, if finish { "finished" } else { "dropped" }));
    }
    info.label_if(!finish, "dropped without finish");
    info.label_if(stripes >= 10, "10 stripes or more");
    info.label_if(out > 3 * last_allowed, "output three times the allowance");
    info.label_if(total > 20_000, "20000 values or more");
    info.nontrivial = stripes >= 2 && out > last_allowed;
    Ok(())
}
