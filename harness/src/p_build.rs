//! C28: a build with overflow checks and debug assertions and one without behave alike.

use crate::drive::*;
use crate::engine::{guarded, hash64, Info, Rng, Src};
use crate::gen::*;
use crate::model::*;
use crate::p_file::{describe, refs};
use crate::p_hist::*;
use orc_format::schema::Schema;
use orc_format::writer::compression::{SnappyCompression, ZstdCompression};
use orc_format::writer::data::{BaseData, Data, GenericData};
use orc_format::writer::{Config, Writer};
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

type R = Result<(), String>;

/// The plain build lies beside the one that runs.
pub fn plain_exe() -> PathBuf {
    let me = std::env::current_exe().unwrap_or_else(|_| "harness/target/release/orc-verif".into());
    let mut p = me.clone();
    p.pop();
    p.pop();
    p.push("plain");
    p.push(me.file_name().unwrap_or_default());
    p
}

fn sum(b: &[u8]) -> u64 {
    let mut h = b.len() as u64;
    for c in b.chunks(8) {
        let mut x = [0; 8];
        x[..c.len()].copy_from_slice(c);
        h = hash64(&[h, u64::from_le_bytes(x)]);
    }
    h
}

/// What one call did. Messages may differ between builds.
fn outcome<T>(r: Result<std::io::Result<T>, String>) -> (&'static str, Option<T>) {
    match r {
        Ok(Ok(v)) => ("ok", Some(v)),
        Ok(Err(_)) => ("error", None),
        Err(_) => ("refused", None),
    }
}

/// A call that asks a column for something it does not have, or just has.
fn odd_call(s: &mut Src, d: &mut Data) -> String {
    let near = |s: &mut Src, n: usize| match s.below(5) {
        0 => n,
        1 => n.wrapping_sub(1),
        2 => n + s.us(0, 3),
        3 => n.wrapping_add(1 << s.below(64)),
        _ => (1usize << s.below(64)).wrapping_sub(s.us(0, 1)),
    };
    let (what, r) = match d {
        Data::Union(u) => {
            let n = u.children().len();
            let t = near(s, n);
            if s.chance(1, 2) {
                (format!("tag {} of {}", t, n), guarded(|| u.write(t)))
            } else {
                (format!("variant {} of {}", t, n), guarded(|| u.child(t).write_null()))
            }
        }
        Data::Struct(x) => {
            let n = x.children().len();
            let t = near(s, n);
            (format!("field {} of {}", t, n), guarded(|| x.child(t).write_null()))
        }
        Data::List(l) => {
            let n = near(s, 1) as u64;
            (format!("list of {}", n), guarded(|| l.write(n)))
        }
        Data::Map(l) => {
            let n = near(s, 1) as u64;
            (format!("map of {}", n), guarded(|| l.write(n)))
        }
        d => {
            let r = unwrap_results(d);
            return r.iter().map(|(n, r)| format!("{} {}", n, if r.is_ok() { "ok" } else { "refused" })).collect::<Vec<_>>().join(", ");
        }
    };
    format!("{} {}", what, if r.is_ok() { "ok" } else { "refused" })
}

/// A random program of calls and what came of each.
fn program(s: &mut Src, info: &mut Info) -> Vec<String> {
    match s.weighted(&[12, 1, 1]) {
        0 => history(s, info),
        1 => settings(s, info),
        _ => variants(s, info),
    }
}

fn history(s: &mut Src, info: &mut Info) -> Vec<String> {
    let full = s.chance(1, 2);
    let mut c = gen_case(s, SchemaOpts { root_struct_pct: 60, ..Default::default() }, CaseOpts { full_dec: full, ..small(1500) });
    if s.chance(1, 3) {
        c.cfg.stripe = Some(*s.pick(&[0usize, 1, 7, 60, 300, usize::MAX, usize::MAX - 1, 1 << 63]));
    }
    if s.chance(1, 6) {
        c.cfg.stride = Some(*s.pick(&[1u32, 2, 3, 7, 64, u32::MAX, u32::MAX - 1, 1 << 31]));
    }
    describe(&c, info);
    let mut log = Vec::new();
    let schema = c.ty.schema();
    let (r, w) = outcome(guarded(|| Writer::new(Vec::new(), &schema, c.cfg.build())));
    log.push(format!("new {}", r));
    let Some(mut w) = w else { return log };
    let paths = c.ty.paths();
    let odd = s.chance(2, 5);
    let seed = s.below(1 << 16);
    for (i, b) in c.batches.iter().enumerate() {
        let rows = refs(b);
        let mut ops: Vec<Vec<Op>> = flatten(&c.ty, &rows).iter().map(to_ops).collect();
        let mut n = rows.len() as u64;
        let mut rng = Rng::new(seed + i as u64);
        if odd && s.chance(1, 3) {
            for _ in 0..s.us(1, 2) {
                log.push(mutate(s, &c.ty, &mut ops, &mut n));
            }
            info.label("a batch that does not match");
        }
        let r = guarded(|| write_ops(w.data(), &paths, &ops, &mut rng));
        log.push(format!("values of batch {} {}", i, if r.is_ok() { "ok" } else { "refused" }));
        if odd && s.chance(1, 3) {
            let p = s.pick(&paths).clone();
            let d = column(w.data(), &p, &mut || rng.next() & 1 == 1);
            log.push(format!("column {:?}: {}", p, odd_call(s, d)));
            info.label("an odd call");
        }
        let (r, _) = outcome(guarded(|| w.write_batch(n)));
        log.push(format!("batch {} of {} {}", i, n, r));
        if r != "ok" {
            info.label("a refused batch");
            info.nontrivial = true;
        }
        log.push(format!("estimate {}, delivered {}", w.data().estimated_size(), w.inner().len()));
    }
    let (r, b) = outcome(guarded(|| w.finish()));
    log.push(format!("finish {}", r));
    if let Some(b) = b {
        log.push(format!("{} bytes, {:016x}", b.len(), sum(&b)));
    }
    log
}

fn settings(s: &mut Src, info: &mut Info) -> Vec<String> {
    info.label("settings");
    info.nontrivial = true;
    let block = match s.below(3) {
        0 => *s.pick(&[0usize, 1, 2, 0x7ffffe, 0x7fffff, 0x800000, 0xffffff, 0x1000000, 1 << 31, 1 << 32, (1 << 32) + 100, usize::MAX]),
        1 => s.us(1, 300),
        _ => (1usize << s.below(64)).wrapping_add(s.us(0, 2)).wrapping_sub(1),
    };
    let level = match s.below(2) {
        0 => s.range(0, 40) as i32 - 10,
        _ => *s.pick(&[0i32, 1, 22, 23, -1, 256, 257, 278, i32::MAX, i32::MIN]),
    };
    let zstd = s.chance(1, 2);
    let n = s.range(0, 40);
    let what = if zstd { format!("zstd level {} block {}", level, block) } else { format!("snappy block {}", block) };
    let (r, b) = outcome(guarded(|| {
        let comp = if zstd { ZstdCompression::new().with_compression_level(level).with_block_size(block).build() } else { SnappyCompression::new().with_block_size(block).build() };
        let mut w = Writer::new(Vec::new(), &Schema::Long, Config::new().with_compression(comp))?;
        for i in 0..n {
            w.data().unwrap_long().write((i * i * 7919 % 1000) as i64);
        }
        w.write_batch(n)?;
        w.finish()
    }));
    info.desc = what.clone();
    vec![what, r.to_string(), b.map_or(String::new(), |b| format!("{} bytes, {:016x}", b.len(), sum(&b)))]
}

fn variants(s: &mut Src, info: &mut Info) -> Vec<String> {
    info.label("variants");
    info.nontrivial = true;
    let n = match s.below(2) {
        0 => s.us(0, 300),
        _ => *s.pick(&[0usize, 1, 127, 128, 129, 255, 256, 257, 258, 512, 513, 65536, 65537]),
    };
    let schema = Schema::Union((0..n).map(|_| Schema::Boolean).collect());
    let tag = match s.below(3) {
        0 => n,
        1 => n.wrapping_sub(1),
        _ => (1usize << s.below(64)).wrapping_add(s.us(0, 2)).wrapping_sub(1),
    };
    info.desc = format!("tag {} of {} variants", tag, n);
    let mut log = vec![info.desc.clone()];
    let (r, w) = outcome(guarded(|| Writer::new(Vec::new(), &schema, Config::new())));
    log.push(format!("new {}", r));
    if let Some(mut w) = w {
        let r = guarded(|| w.data().unwrap_union().write(tag));
        log.push(format!("write {}", if r.is_ok() { "ok" } else { "refused" }));
        if r.is_ok() {
            let r = guarded(|| w.data().unwrap_union().child(tag).write_null());
            log.push(format!("value {}", if r.is_ok() { "ok" } else { "refused" }));
            let (r, _) = outcome(guarded(|| w.write_batch(1)));
            log.push(format!("batch {}", r));
            if r == "ok" {
                let (r, b) = outcome(guarded(|| w.finish()));
                log.push(format!("finish {} {:016x}", r, b.map_or(0, |b| sum(&b))));
            }
        }
    }
    log
}

/// The helper: a list of choices per line in, the trace on one line out.
pub fn helper() -> i32 {
    let t = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {
        for l in std::io::stdin().lock().lines() {
            let Ok(l) = l else { return };
            let list: Vec<u64> = l.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let t = match guarded(|| program(&mut Src::replay(list), &mut Info::default())) {
                Ok(t) => t.join("\t"),
                Err(p) => format!("HARNESS: {}", p),
            };
            let mut o = std::io::stdout().lock();
            if writeln!(o, "{}", t.replace('\n', " ")).and_then(|_| o.flush()).is_err() {
                return;
            }
        }
    });
    match t.map(|t| t.join()) {
        Ok(Ok(())) => 0,
        _ => 4,
    }
}

struct Helper {
    child: Child,
    to: Option<ChildStdin>,
    from: BufReader<ChildStdout>,
}

impl Helper {
    fn start() -> Result<Helper, String> {
        let exe = plain_exe();
        let e = |e: std::io::Error| format!("HARNESS: the plain build {:?}: {}", exe.display(), e);
        let mut child = Command::new(&exe).arg("helper-c28").env("ORC_VERIF_CHILD", "1").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(e)?;
        let to = child.stdin.take();
        let from = BufReader::new(child.stdout.take().unwrap());
        Ok(Helper { child, to, from })
    }
    fn ask(&mut self, choices: &[u64]) -> std::io::Result<String> {
        let mut t: String = choices.iter().map(|c| format!("{} ", c)).collect();
        t.push('\n');
        let to = self.to.as_mut().unwrap();
        to.write_all(t.as_bytes())?;
        to.flush()?;
        let mut l = String::new();
        self.from.read_line(&mut l)?;
        if !l.ends_with('\n') {
            return Err(std::io::ErrorKind::UnexpectedEof.into());
        }
        l.pop();
        Ok(l)
    }
}

impl Drop for Helper {
    fn drop(&mut self) {
        // End of input ends the helper, unless it is stuck.
        self.to = None;
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static HELPER: RefCell<Option<Helper>> = const { RefCell::new(None) };
}

fn elsewhere(choices: &[u64]) -> Result<String, String> {
    HELPER.with(|h| {
        let mut h = h.borrow_mut();
        if h.is_none() {
            *h = Some(Helper::start()?);
        }
        h.as_mut().unwrap().ask(choices).map_err(|e| {
            let st = h.take().map(|mut x| x.child.wait());
            format!("the build without checks ends while it runs the calls: {} {:?}", e, st)
        })
    })
}

pub fn c28(s: &mut Src, info: &mut Info) -> R {
    let first = s.rec.len();
    let here = program(s, info).join("\t").replace('\n', " ");
    let there = elsewhere(&s.rec[first..].to_vec())?;
    if here != there {
        let (a, b): (Vec<&str>, Vec<&str>) = (here.split('\t').collect(), there.split('\t').collect());
        let i = (0..a.len().max(b.len())).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0);
        return Err(format!(
            "with overflow checks and debug assertions: {:?}; without: {:?}; after {:?}",
            a.get(i).unwrap_or(&""),
            b.get(i).unwrap_or(&""),
            &a[..i.min(a.len())].iter().rev().take(3).rev().collect::<Vec<_>>()
        ));
    }
    Ok(())
}
