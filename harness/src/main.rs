//! orc-verif check <id> [--tier quick|thorough] [--cases N]
//! orc-verif replay <file>
//!
//! Run in /verif. Exit 0: held; 1: VIOLATION; 3: inconclusive.

use orc_verif::engine::*;
use orc_verif::{p_file, p_proto};
use orc_verif::props::{self, Prop};
use std::fmt::Write as _;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

/// Every check runs in two builds of the code under test.
#[derive(Clone, Copy, PartialEq)]
enum Build {
    /// Overflow checks and debug assertions on.
    Checked,
    /// Both off, as in a release build.
    Plain,
}

impl Build {
    fn this() -> Build {
        if cfg!(debug_assertions) { Build::Checked } else { Build::Plain }
    }
    fn name(self) -> &'static str {
        match self {
            Build::Checked => "checked",
            Build::Plain => "plain",
        }
    }
    fn exe(self) -> std::path::PathBuf {
        match self {
            b if b == Build::this() => std::env::current_exe().unwrap_or_else(|_| "harness/target/release/orc-verif".into()),
            Build::Plain => orc_verif::p_build::plain_exe(),
            Build::Checked => "harness/target/release/orc-verif".into(),
        }
    }
}

/// What the first part of a check hands to the second one.
fn save_part(path: &str, r: &Report, wall: f64) {
    let mut t = String::new();
    let _ = writeln!(t, "E {} {} {} {} {} {} {}", r.evaluations, r.sub_evaluations, r.slowest.0, r.slowest.1, wall, peak("VmHWM"), peak("VmPeak"));
    for (l, n) in &r.labels {
        let _ = writeln!(t, "L {} {}", n, l);
    }
    for s in &r.samples {
        let _ = writeln!(t, "S {}", s.replace('\n', " "));
    }
    t.push('H');
    for h in &r.distinct {
        let _ = write!(t, " {}", h);
    }
    t.push('\n');
    let _ = std::fs::write(path, t);
}

#[derive(Default)]
struct Before {
    wall: f64,
    evaluations: u64,
    peak: [u64; 2],
}

/// Add the first part to the report of the second.
fn merge_part(path: &str, r: &mut Report) -> Before {
    let mut b = Before::default();
    let mut samples = Vec::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "E" => {
                let f: Vec<f64> = v.split(' ').filter_map(|x| x.parse().ok()).collect();
                if f.len() == 7 {
                    b = Before { wall: f[4], evaluations: f[0] as u64, peak: [f[5] as u64, f[6] as u64] };
                    r.evaluations += f[0] as u64;
                    r.sub_evaluations += f[1] as u64;
                    if f[2] > r.slowest.0 {
                        r.slowest = (f[2], f[3] as u64);
                    }
                }
            }
            "L" => {
                if let Some((n, name)) = v.split_once(' ') {
                    let n = n.parse().unwrap_or(0);
                    match r.labels.iter_mut().find(|(l, _)| **l == name) {
                        Some((_, x)) => *x += n,
                        None => {
                            r.labels.insert(Box::leak(name.to_string().into_boxed_str()), n);
                        }
                    }
                }
            }
            "S" => samples.push(v.to_string()),
            "H" => r.distinct.extend(v.split(' ').filter_map(|x| x.parse::<u64>().ok())),
            _ => {}
        }
    }
    r.nontrivial = r.distinct.len() as u64;
    samples.append(&mut r.samples);
    samples.truncate(6);
    r.samples = samples;
    b
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (0x80..0xa0).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Findings of a property that are listed (signatures).
fn known(id: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string("KNOWN_FINDINGS.txt").unwrap_or_default();
    let mut v = Vec::new();
    for l in t.lines() {
        // finding: property=C10 signature=nested-row-index <what fails>
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let (p, s, w) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == format!("property={}", id) {
                v.push((s.trim_start_matches("signature=").to_string(), w.to_string()));
            }
        }
    }
    v
}

fn apply_findings(id: &str, say: bool) {
    for (sig, what) in known(id) {
        let r = match sig.as_str() {
            "nested-row-index" => {
                p_file::NESTED_LENIENT.store(true, Ordering::SeqCst);
                if id == "C10" {
                    p_file::nested_finding_stats()
                } else {
                    p_file::nested_finding_positions()
                }
            }
            "bitset-length" => {
                p_proto::BITSET_LENIENT.store(true, Ordering::SeqCst);
                p_proto::bitset_finding()
            }
            "nested-length" => {
                p_proto::NESTED_LENIENT.store(true, Ordering::SeqCst);
                p_proto::nested_length_finding()
            }
            _ => continue,
        };
        if say {
            match r {
                Err(e) => println!("KNOWN-FINDING: property={} {} ({})", id, what, e),
                Ok(()) => println!("note: the listed finding {} of {} does not reproduce on this tree", sig, id),
            }
        }
    }
}

fn write_replay(build: Build, path: &str, id: &str, seed: u64, f: &Failure) {
    let _ = std::fs::create_dir_all("replays");
    let mut t = String::new();
    let _ = writeln!(t, "property {}", id);
    let _ = writeln!(t, "build {}", build.name());
    let _ = writeln!(t, "# seed {} case {}; {} choices shrunk to {}", seed, f.case_index, f.shrunk_from, f.choices.len());
    for l in f.message.lines() {
        let _ = writeln!(t, "# {}", l);
    }
    for l in f.desc.lines() {
        let _ = writeln!(t, "# case: {}", l);
    }
    let _ = writeln!(t, "choices {}", f.choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(" "));
    let _ = std::fs::write(path, t);
}

fn write_evidence(p: &Prop, tier: &str, seed: u64, r: &Report, before: &Before, wall: f64, violations: i32) -> bool {
    let mut j = String::new();
    let _ = write!(
        j,
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"{}\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"sub_evaluations\": {},\n  \"labels\": {{",
        p.id,
        tier,
        seed,
        p.level,
        r.evaluations,
        r.nontrivial,
        json_str(p.rule),
        r.sub_evaluations
    );
    for (i, (l, n)) in r.labels.iter().enumerate() {
        let _ = write!(j, "{}\n   {}: {}", if i > 0 { "," } else { "" }, json_str(l), n);
    }
    let other = r.evaluations - before.evaluations;
    let (checked, plain) = if Build::this() == Build::Plain { (before.evaluations, other) } else { (other, 0) };
    let _ = write!(j, "\n  }},\n  \"builds\": {{\"with overflow checks and debug assertions\": {}, \"without\": {}}}", checked, plain);
    let _ = write!(j, ",\n  \"slowest_case\": {{\"seconds\": {:.2}, \"index\": {}}},\n  \"samples\": [", r.slowest.0, r.slowest.1);
    for (i, s) in r.samples.iter().enumerate() {
        let _ = write!(j, "{}\n   {}", if i > 0 { "," } else { "" }, json_str(s));
    }
    let _ = write!(j, "\n  ]\n }},\n \"wall_s\": {:.2},\n \"peak_mb\": [{}, {}],\n \"violations\": {}\n}}\n", wall + before.wall, peak("VmHWM").max(before.peak[0]), peak("VmPeak").max(before.peak[1]), violations);
    let _ = std::fs::create_dir_all("evidence");
    if let Err(e) = std::fs::write(format!("evidence/{}.json", p.id), j) {
        println!("ERROR: cannot write evidence: {}", e);
        return false;
    }
    true
}

/// Peak resident or virtual memory of this process in MB.
fn peak(key: &str) -> u64 {
    let s = std::fs::read_to_string("/proc/self/status").unwrap_or_default();
    let l = s.lines().find(|l| l.starts_with(key)).unwrap_or_default();
    l.split_whitespace().nth(1).and_then(|n| n.parse::<u64>().ok()).unwrap_or(0) / 1024
}

/// The longest any single case may take; real ones take a few seconds at the very most.
const CASE_LIMIT: Duration = Duration::from_secs(100);

fn check(p: &Prop, tier: &str, seed: u64, cases: Option<u64>) -> i32 {
    let start = Instant::now();
    let cases = cases.unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    // The first three fifths of the cases in the checked build, the rest in the plain one.
    let plain = Build::this() == Build::Plain;
    let middle = if p.both { (cases * 3 / 5).max(cases.min(p.fixed.len() as u64)) } else { cases };
    let (from, to) = if plain { (middle, cases) } else { (0, middle) };
    limit_memory(40 << 30);
    watchdog(Duration::from_secs(match (tier, plain) {
        ("thorough", _) => 5 * 3600,
        (_, false) => 450,
        (_, true) => 350,
    }));
    if let Ok(f) = std::env::var("ORC_VERIF_PROGRESS") {
        progress_to(&f, CASE_LIMIT);
    }
    apply_findings(p.id, !plain);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(12);
    let fixed = fixed_cases(p, tier);
    let time = Duration::from_secs(if tier == "thorough" { 2 * 3600 } else { 200 });
    let mut r = run(p.id, p.check, fixed, seed, from, to, threads, time);
    let part = std::env::var("ORC_VERIF_PART").unwrap_or_default();
    let mut before = Before::default();
    if plain {
        before = merge_part(&part, &mut r);
    } else if !part.is_empty() {
        save_part(&part, &r, start.elapsed().as_secs_f64());
    }
    let mut code = 0;
    if let Some(mut f) = r.failure.take() {
        code = 1;
        let path = format!("replays/{}-{}-{}.txt", p.id, seed, f.case_index);
        // Report first: a shrinking candidate could bring the process down.
        write_replay(Build::this(), &path, p.id, seed, &f);
        write_evidence(p, tier, seed, &r, &before, start.elapsed().as_secs_f64(), 1);
        println!("VIOLATION property={} replay={}", p.id, path);
        let (choices, message, desc) = shrink(p.check, std::mem::take(&mut f.choices), std::mem::take(&mut f.message), Duration::from_secs(40));
        f.choices = choices;
        f.message = message;
        f.desc = desc;
        write_replay(Build::this(), &path, p.id, seed, &f);
        println!("failing case: {}", f.desc);
        println!("failure: {}", f.message);
    }
    let wall = start.elapsed().as_secs_f64();
    if !write_evidence(p, tier, seed, &r, &before, wall, code) {
        return 3;
    }
    println!(
        "{} ({}): {} cases ({} sub-evaluations), {} distinct non-trivial, {:.1} s, {}",
        p.id,
        if before.evaluations > 0 { "both builds" } else { Build::this().name() },
        r.evaluations,
        r.sub_evaluations,
        r.nontrivial,
        wall + before.wall,
        if code == 0 { "held" } else { "VIOLATED" }
    );
    if std::env::var("ORC_VERIF_LABELS").is_ok() {
        for (l, n) in &r.labels {
            println!("  {:6} {}", n, l);
        }
    }
    code
}

enum End {
    Code(i32),
    Signal(i32),
    Timeout,
}

fn run_child(build: Build, args: &[String], envs: &[(&str, String)], quiet: bool, limit: Duration) -> End {
    use std::os::unix::process::ExitStatusExt;
    let mut c = std::process::Command::new(build.exe());
    c.args(args).env("ORC_VERIF_CHILD", "1");
    for (k, v) in envs {
        c.env(k, v);
    }
    if quiet {
        c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
    }
    let mut ch = match c.spawn() {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR: cannot start {:?}: {}", c, e);
            return End::Code(3);
        }
    };
    let t = Instant::now();
    let mut nap = 1;
    loop {
        match ch.try_wait() {
            Ok(Some(st)) => {
                return match (st.code(), st.signal()) {
                    (Some(c), _) => End::Code(c),
                    (_, Some(s)) => End::Signal(s),
                    _ => End::Code(3),
                }
            }
            Ok(None) => {
                if t.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return End::Timeout;
                }
                std::thread::sleep(Duration::from_millis(nap));
                nap = (nap * 2).min(50);
            }
            Err(_) => return End::Code(3),
        }
    }
}

/// Run a check in both builds.
fn supervise(p: &Prop, args: &[String], tier: &str, seed: u64) -> i32 {
    let part = std::env::temp_dir().join(format!("orc-verif-{}-{}.part", p.id, std::process::id())).to_string_lossy().to_string();
    let only = std::env::var("ORC_VERIF_BUILD").unwrap_or_default();
    let mut code = 0;
    if only != "plain" {
        code = supervise_build(Build::Checked, &part, p, args, tier, seed);
    }
    if code == 0 && p.both && only != "checked" {
        code = supervise_build(Build::Plain, &part, p, args, tier, seed);
    }
    let _ = std::fs::remove_file(&part);
    code
}

/// Run a check in a child process. Code under test that ends the process (abort, stack overflow,
/// runaway allocation) or does not end is traced to the case that does it.
fn supervise_build(build: Build, part: &str, p: &Prop, args: &[String], tier: &str, seed: u64) -> i32 {
    let start = Instant::now();
    let dir = std::env::temp_dir();
    let tag = format!("orc-verif-{}-{}", p.id, std::process::id());
    let progress = dir.join(format!("{}.progress", tag)).to_string_lossy().to_string();
    let log = dir.join(format!("{}.choices", tag)).to_string_lossy().to_string();
    let end = run_child(build, args, &[("ORC_VERIF_PROGRESS", progress.clone()), ("ORC_VERIF_PART", part.to_string())], false, Duration::from_secs(7 * 3600));
    let (running, shrinking) = in_flight(&progress);
    let _ = std::fs::remove_file(&progress);
    let why = match end {
        End::Code(HANG) => "did not end".to_string(),
        End::Signal(s) => format!("was ended by signal {}", s),
        End::Code(c @ (0 | 1 | 3)) => return c,
        End::Code(c) => format!("exited with {}", c),
        End::Timeout => "did not end".to_string(),
    };
    if shrinking {
        // The violation has been reported; one of the shrinking candidates ended the process.
        println!("note: the process {} while shrinking", why);
        return 1;
    }
    println!("note: the run {}; trying the cases that were running one by one", why);
    let limit = CASE_LIMIT.min(Duration::from_secs(60));
    let bad = |e: &End| match e {
        End::Signal(s) => Some(format!("the process is ended by signal {}", s)),
        End::Timeout => Some(format!("does not end within {:?}", limit)),
        End::Code(1) => Some("the check fails".to_string()),
        _ => None,
    };
    for i in running {
        let a = ["case".to_string(), p.id.to_string(), i.to_string()];
        let e = run_child(build, &a, &[("ORC_VERIF_LOG", log.clone()), ("ORC_VERIF_TIER", tier.to_string())], true, limit);
        if let Some(what) = bad(&e) {
            let t = std::fs::read_to_string(&log).unwrap_or_default();
            let choices: Vec<u64> = t.split_whitespace().filter_map(|x| x.parse().ok()).collect();
            let mut f = Failure { case_index: i, message: what, shrunk_from: choices.len(), choices, desc: String::new() };
            let path = format!("replays/{}-{}-{}.txt", p.id, seed, i);
            write_replay(build, &path, p.id, seed, &f);
            println!("VIOLATION property={} replay={}", p.id, path);
            let r = Report { evaluations: i + 1, sub_evaluations: 0, nontrivial: 0, distinct: Default::default(), labels: Default::default(), samples: vec![], slowest: (0.0, 0), failure: None };
            write_evidence(p, tier, seed, &r, &Before::default(), start.elapsed().as_secs_f64(), 1);
            if !matches!(e, End::Timeout) {
                let tmp = dir.join(format!("{}.replay", tag)).to_string_lossy().to_string();
                let (c, m, _) = shrink_with(std::mem::take(&mut f.choices), f.message.clone(), Duration::from_secs(60), &|l| {
                    let g = Failure { case_index: i, message: String::new(), choices: l.to_vec(), desc: String::new(), shrunk_from: 0 };
                    write_replay(build, &tmp, p.id, seed, &g);
                    let e = run_child(build, &["replay".to_string(), tmp.clone()], &[], true, Duration::from_secs(10));
                    bad(&e).map(|m| (l.to_vec(), m, String::new()))
                });
                let _ = std::fs::remove_file(&tmp);
                f.choices = c;
                f.message = m;
                write_replay(build, &path, p.id, seed, &f);
            }
            println!("failure: {}", f.message);
            let _ = std::fs::remove_file(&log);
            return 1;
        }
    }
    let _ = std::fs::remove_file(&log);
    println!("ERROR: the run {}, and none of its cases does so by itself; inconclusive", why);
    3
}

fn fixed_cases(p: &Prop, tier: &str) -> &'static [&'static [u64]] {
    if tier == "thorough" {
        p.fixed
    } else {
        &p.fixed[..p.fixed_quick]
    }
}

/// One case of a search, by its index.
fn one_case(p: &Prop, seed: u64, index: u64) -> i32 {
    limit_memory(12 << 30);
    apply_findings(p.id, false);
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                let mut src = match fixed_cases(p, &std::env::var("ORC_VERIF_TIER").unwrap_or_default()).get(index as usize) {
                    Some(l) => Src::replay(l.to_vec()),
                    None => Src::random(case_seed(seed, p.id, index)),
                };
                src.log = std::env::var("ORC_VERIF_LOG").ok().and_then(|f| std::fs::File::create(f).ok());
                run_once(p.check, &mut src, &mut Info::default())
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match r {
        Ok(()) => 0,
        Err(e) => {
            println!("failure: {}", e);
            1
        }
    }
}

fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("ERROR: {}: {}", path, e);
            return 3;
        }
    };
    let mut id = String::new();
    let mut choices = Vec::new();
    let mut build = Build::Checked;
    for l in t.lines() {
        if l == "build plain" {
            build = Build::Plain;
        }
        if let Some(x) = l.strip_prefix("property ") {
            id = x.trim().to_string();
        } else if let Some(x) = l.strip_prefix("choices") {
            choices = x.split_whitespace().filter_map(|c| c.parse().ok()).collect();
        }
    }
    let p = match props::find(&id) {
        Some(p) => p,
        None => {
            println!("ERROR: no property {:?}", id);
            return 3;
        }
    };
    if std::env::var("ORC_VERIF_CHILD").is_err() {
        let a = ["replay".to_string(), path.to_string()];
        let what = match run_child(build, &a, &[], false, Duration::from_secs(120)) {
            End::Code(c) => return c,
            End::Signal(s) => format!("the process was ended by signal {}", s),
            End::Timeout => "the case does not end".to_string(),
        };
        println!("failure: {}", what);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    limit_memory(12 << 30);
    apply_findings(p.id, false);
    let (msg, desc) = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(sc, || {
                let mut info = Info::default();
                let r = run_once(p.check, &mut Src::replay(choices), &mut info);
                (r.err(), info.desc)
            })
            .unwrap()
            .join()
            .unwrap()
    });
    println!("case: {}", desc);
    match msg {
        Some(m) => {
            println!("failure: {}", m);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            println!("{}: the replayed case holds", id);
            0
        }
    }
}

fn main() {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let id = a.get(2).cloned().unwrap_or_default();
            let tier = opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1);
            let tier = if tier == "thorough" { "thorough" } else { "quick" };
            match props::find(&id) {
                Some(p) if std::env::var("ORC_VERIF_CHILD").is_err() => supervise(p, &a[1..], tier, seed),
                Some(p) => check(p, tier, seed, opt("--cases").and_then(|c| c.parse().ok())),
                None => {
                    println!("ERROR: unknown property {:?}", id);
                    3
                }
            }
        }
        Some("case") => match (props::find(a.get(2).map_or("", |s| s)), a.get(3).and_then(|s| s.parse().ok())) {
            (Some(p), Some(i)) => one_case(p, std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1), i),
            _ => 3,
        },
        Some("helper-c28") => {
            limit_memory(12 << 30);
            watchdog(Duration::from_secs(6 * 3600));
            orc_verif::p_build::helper()
        }
        Some("helper-c19") => orc_verif::p_hist::c19_helper(),
        Some("replay") => replay(a.get(2).map(|s| s.as_str()).unwrap_or("")),
        Some("list") => {
            for p in props::PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            println!("usage: orc-verif check <id> [--tier quick|thorough] [--cases N] | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
