//! Properties decided by looking at the finished file: C01..C15, C23.

use crate::codec::Stream;
use crate::drive::*;
use crate::engine::{Info, Src};
use crate::gen::*;
use crate::index;
use crate::model::*;
use crate::p_scale;
use crate::reader::*;
use crate::stats::check_stats;

type R = Result<(), String>;

pub fn describe(c: &Case, info: &mut Info) {
    info.desc = c.render();
    let rows = c.rows();
    info.label_if(rows == 0, "no rows");
    info.label_if(c.batches.iter().any(|b| b.is_empty()), "has empty batch");
    info.label_if(c.batches.len() > 1, "several batches");
    info.label_if(c.cfg.comp == Comp::None, "uncompressed");
    info.label_if(matches!(c.cfg.comp, Comp::Snappy(_)), "snappy");
    info.label_if(matches!(c.cfg.comp, Comp::Zstd(..)), "zstd");
    info.label_if(c.ty.depth() >= 3, "depth >= 3");
    info.label_if(c.ty.preorder().iter().any(|t| matches!(t, Ty::List(_) | Ty::Map(..))), "has list or map");
    info.label_if(c.ty.preorder().iter().any(|t| matches!(t, Ty::Union(_))), "has union");
    info.label_if(rows > c.cfg.stride_value() as usize, "several row groups");
    info.label_if(rows >= 1000, "1000 rows or more");
    info.label_if(c.ty.columns() > 30, "more than 30 columns");
    info.label_if(c.batches.len() >= 20, "20 batches or more");
    info.label_if(rows > 10_000, "more than 10000 rows");
    info.label_if(c.batches.iter().flatten().any(|r| matches!(r, Val::List(v) if v.len() > 65535) || matches!(r, Val::Map(v) if v.len() > 65535)), "list or map of more than 65535");
    fn nulls(v: &Val) -> bool {
        match v {
            Val::Null => true,
            Val::Struct(x) | Val::List(x) => x.iter().any(nulls),
            Val::Map(x) => x.iter().any(|(a, b)| nulls(a) || nulls(b)),
            Val::Union(_, x) => nulls(x),
            _ => false,
        }
    }
    info.label_if(c.batches.iter().flatten().any(nulls), "has nulls");
    info.nontrivial = c.batches.iter().flatten().any(|r| !r.is_null());
}

pub fn stripes_label(f: &OrcFile, info: &mut Info) {
    info.label_if(f.stripes.len() > 1, "several stripes");
    info.label_if(f.stripes.iter().any(|s| s.streams.values().any(|x| x.chunks.len() > 1)), "several chunks in a stream");
    info.label_if(f.stripes.iter().any(|s| s.streams.values().any(|x| x.chunks.iter().any(|c| c.original))), "chunk stored as is");
}

pub fn refs(rows: &[Val]) -> Vec<&Val> {
    rows.iter().collect()
}

/// Parse, check the type tree, decode everything and compare.
pub fn roundtrip(c: &Case, bytes: &[u8], info: &mut Info) -> R {
    let f = OrcFile::parse(bytes)?;
    stripes_label(&f, info);
    same_types(&f, &c.ty)?;
    let rows = c.all_rows();
    f.split_rows(&refs(&rows))?;
    let got = f.decode_all(&c.ty)?;
    diff_rows(&got, &refs(&rows))
}

pub fn same_types(f: &OrcFile, ty: &Ty) -> R {
    let t = f.ty()?;
    if t != *ty {
        return Err(format!("footer types are {}, schema is {}", t.render(), ty.render()));
    }
    Ok(())
}

/// Any schema; occasionally row index stride 0.
fn any_case(s: &mut Src, co: CaseOpts) -> Case {
    let mut c = gen_case(s, SchemaOpts::default(), co);
    if s.chance(1, 40) {
        c.cfg.stride = Some(0);
    }
    c
}

pub fn c01(s: &mut Src, info: &mut Info) -> R {
    let c = match p_scale::fixed_case(s, info).1 {
        Some(c) => c,
        None => any_case(s, CaseOpts { max_vals: 9000, ..Default::default() }),
    };
    describe(&c, info);
    let how = gen_how(s);
    info.label_if(how.order != Order::Rows, "written column-wise or interleaved");
    let bytes = file_how(&c, &how)?;
    roundtrip(&c, &bytes, info)
}

fn leaf_case(s: &mut Src, leaf: Ty, co: CaseOpts) -> Case {
    let cfg = gen_cfg(s);
    let ty = if s.chance(1, 8) { Ty::List(Box::new(leaf.clone())) } else { wrap_leaf(s, leaf.clone()) };
    let (mut cfg, mut co) = (cfg, co);
    if matches!(leaf, Ty::Str | Ty::Bin | Ty::Char(_) | Ty::VarChar(_)) && s.chance(1, 400) {
        let _ = big_values(s, leaf, &mut cfg, &mut co);
    }
    let co = limit_for(&cfg, co);
    let batches = gen_batches(s, &ty, cfg.comp.block().max(1), &co);
    Case { ty, cfg, batches }
}

pub fn c02(s: &mut Src, info: &mut Info) -> R {
    let leaf = s.pick(&[Ty::Long, Ty::Int, Ty::Short, Ty::Date]).clone();
    let c = leaf_case(s, leaf, CaseOpts { max_vals: 6000, max_batches: 4, ..Default::default() });
    describe(&c, info);
    let bytes = file_how(&c, &gen_how(s))?;
    roundtrip(&c, &bytes, info)
}

pub fn c03(s: &mut Src, info: &mut Info) -> R {
    let c = leaf_case(s, Ty::Ts, CaseOpts { max_vals: 4000, max_batches: 4, ..Default::default() });
    describe(&c, info);
    let a = file(&c)?;
    roundtrip(&c, &a, info)?;
    let b = file_how(&c, &How { entry: Entry::Narrow, ..PLAIN })?;
    if a != b {
        return Err(format!("write_nanos_epoch and write_nanos of the same instants give different files ({})", first_diff(&a, &b)));
    }
    let b = file_how(&c, &How { entry: Entry::Mixed(s.below(1 << 16)), ..PLAIN })?;
    if a != b {
        return Err(format!("mixing write_nanos_epoch and write_nanos gives another file ({})", first_diff(&a, &b)));
    }
    Ok(())
}

pub fn c04(s: &mut Src, info: &mut Info) -> R {
    let leaf = gen_decimal_ty(s);
    let full = s.chance(1, 2);
    let c = leaf_case(s, leaf, CaseOpts { max_vals: 3000, max_batches: 4, full_dec: full, ..Default::default() });
    describe(&c, info);
    info.label_if(full, "full 128-bit range");
    let a = file(&c)?;
    roundtrip(&c, &a, info)?;
    let b = file_how(&c, &How { entry: Entry::Narrow, ..PLAIN })?;
    if a != b {
        return Err(format!("write_i64 and write_i128 of the same values give different files ({})", first_diff(&a, &b)));
    }
    let b = file_how(&c, &How { entry: Entry::Mixed(s.below(1 << 16)), ..PLAIN })?;
    if a != b {
        return Err(format!("mixing write_i64 and write_i128 gives another file ({})", first_diff(&a, &b)));
    }
    Ok(())
}

pub fn c05(s: &mut Src, info: &mut Info) -> R {
    let leaf = match s.weighted(&[3, 2, 2, 4, 3, 1, 1]) {
        0 => Ty::Bool,
        1 => Ty::Float,
        2 => Ty::Double,
        3 => Ty::Str,
        4 => Ty::Bin,
        5 => Ty::Char(gen_max_len(s, 40)),
        _ => Ty::VarChar(gen_max_len(s, 400)),
    };
    let big = s.chance(1, 30);
    let c = leaf_case(s, leaf, CaseOpts { max_vals: 5000, max_bytes: if big { 1_200_000 } else { 120_000 }, max_batches: 4, ..Default::default() });
    describe(&c, info);
    let bytes = file_how(&c, &gen_how(s))?;
    roundtrip(&c, &bytes, info)
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("{} and {} bytes, first difference at {}", a.len(), b.len(), i)
}

pub fn c06(s: &mut Src, info: &mut Info) -> R {
    let c = any_case(s, CaseOpts { max_vals: 5000, ..Default::default() });
    describe(&c, info);
    let rows = c.all_rows();
    let rows = refs(&rows);
    let bytes = file_how(&c, &gen_how(s))?;
    let f = OrcFile::parse(&bytes)?;
    stripes_label(&f, info);
    let parts = f.split_rows(&rows)?;
    for (i, st) in f.stripes.iter().enumerate() {
        for (id, col) in flatten(&c.ty, &parts[i]).iter().enumerate() {
            let want: Vec<bool> = col.vals.iter().map(|v| !v.is_null()).collect();
            let has_null = want.contains(&false);
            let e = |m: String| format!("stripe {} column {} ({}): {}", i, id, col.ty.render(), m);
            let present = st.streams.contains_key(&(id as u64, PRESENT));
            if present != has_null {
                return Err(e(format!("PRESENT stream {}, nulls {}", present, has_null)));
            }
            let got = decode_present(st, id, want.len() as u64).map_err(e)?;
            if got != want {
                let k = got.iter().zip(&want).position(|(a, b)| a != b).unwrap();
                return Err(e(format!("value {} is marked present={}, should be {}", k, got[k], want[k])));
            }
            info.label_if(has_null && matches!(col.ty, Ty::Struct(_) | Ty::List(_) | Ty::Map(..) | Ty::Union(_)), "null compound value");
        }
        let got = f.decode_stripe(i, &c.ty)?;
        diff_rows(&got, &parts[i]).map_err(|e| format!("stripe {}: {}", i, e))?;
    }
    info.nontrivial = info.labels.contains(&"has nulls");
    Ok(())
}

fn want_kinds(t: &Ty) -> &'static [u64] {
    match t {
        Ty::Ts | Ty::Dec(..) => &[DATA, SECONDARY],
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) | Ty::Bin => &[DATA, LENGTH],
        Ty::List(_) | Ty::Map(..) => &[LENGTH],
        Ty::Struct(_) => &[],
        _ => &[DATA],
    }
}

pub fn check_layout(c: &Case, bytes: &[u8], info: &mut Info) -> R {
    let f = OrcFile::parse(bytes)?;
    stripes_label(&f, info);
    let eq = |what: &str, got: u64, want: u64| if got == want { Ok(()) } else { Err(format!("{} is {}, should be {}", what, got, want)) };
    let mut p = 3;
    let mut rows = 0;
    for (i, st) in f.stripes.iter().enumerate() {
        eq(&format!("offset of stripe {}", i), st.start as u64, p)?;
        p = st.end as u64;
        rows += st.rows;
        if st.rows == 0 {
            return Err(format!("stripe {} has no rows", i));
        }
        let ncol = c.ty.columns() as u64;
        let mut in_data = false;
        let mut idx = vec![0; ncol as usize];
        let mut off = st.start;
        for l in &st.locs {
            if l.column >= ncol {
                return Err(format!("stripe {}: stream for column {} of {}", i, l.column, ncol));
            }
            if l.kind == ROW_INDEX {
                if in_data {
                    return Err(format!("stripe {}: row index of column {} after data streams", i, l.column));
                }
                idx[l.column as usize] += 1;
            } else {
                if !in_data {
                    eq(&format!("stripe {}: start of the data streams", i), off as u64, st.data_start as u64)?;
                }
                in_data = true;
            }
            off += l.len;
        }
        if !in_data {
            eq(&format!("stripe {}: start of the data area", i), off as u64, st.data_start as u64)?;
        }
        if let Some(k) = idx.iter().position(|n| *n != 1) {
            return Err(format!("stripe {}: {} row indexes for column {}", i, idx[k], k));
        }
        let mut kinds = vec![Vec::new(); ncol as usize];
        for (id, kind) in st.streams.keys() {
            if *kind != ROW_INDEX && *kind != PRESENT {
                kinds[*id as usize].push(*kind);
            }
        }
        for (id, t) in c.ty.preorder().iter().enumerate() {
            let kinds = &mut kinds[id];
            kinds.sort();
            if kinds.as_slice() != want_kinds(t) {
                return Err(format!("stripe {}: column {} ({}) has streams {:?}, should be {:?}", i, id, t.render(), kinds, want_kinds(t)));
            }
        }
    }
    eq("end of the stripes / start of the metadata", f.meta_start as u64, p)?;
    eq("contentLength", f.footer.content_length.ok_or("no contentLength")?, p - 3)?;
    eq("headerLength", f.footer.header_length.ok_or("no headerLength")?, 3)?;
    eq("total row count", f.footer.rows.ok_or("no numberOfRows")?, c.rows() as u64)?;
    eq("sum of the stripes' row counts", rows, c.rows() as u64)?;
    eq("number of stripe statistics", f.meta.len() as u64, f.stripes.len() as u64)?;
    // The stripes must contain the rows the counts speak of.
    let all = c.all_rows();
    let parts = f.split_rows(&refs(&all))?;
    for (i, part) in parts.iter().enumerate() {
        diff_rows(&f.decode_stripe(i, &c.ty)?, part).map_err(|e| format!("stripe {}: {}", i, e))?;
    }
    if f.ps.version != [0, 12] {
        return Err(format!("file version {:?}", f.ps.version));
    }
    if f.ps.writer_version.unwrap_or(0) < 6 {
        return Err(format!("writer version {:?} is reserved for the Java writer", f.ps.writer_version));
    }
    eq("row index stride in the footer", f.footer.stride.ok_or("no rowIndexStride")?, c.cfg.stride_value())?;
    Ok(())
}

pub fn c07(s: &mut Src, info: &mut Info) -> R {
    let c = match p_scale::fixed_case(s, info) {
        (Some(0), _) => return p_scale::long_file(info),
        (_, Some(c)) => c,
        _ => {
            let mut c = any_case(s, CaseOpts { max_vals: 3000, max_batches: 10, ..Default::default() });
            if s.chance(1, 3) {
                c.cfg.stripe = Some(s.us(0, 300));
            }
            c
        }
    };
    describe(&c, info);
    let bytes = file_how(&c, &gen_how(s))?;
    check_layout(&c, &bytes, info)
}

fn schema_case(s: &mut Src) -> Case {
    let mut cfg = gen_cfg(s);
    let wide = s.chance(1, 6);
    let ty = gen_schema(s, SchemaOpts { max_depth: 7, max_cols: if wide { 120 } else { 25 }, root_struct_pct: 60 });
    let ty = match s.weighted(&[190, 12, 1]) {
        0 => ty,
        1 => Ty::Union((0..s.us(1, 256)).map(|_| gen_leaf_ty(s)).collect()),
        _ => {
            if let Comp::Zstd(b, _) | Comp::Snappy(b) = &mut cfg.comp {
                *b = Some(1000);
            }
            let n = s.us(200, 1500);
            Ty::Struct((0..n).map(|i| (if i % 4 == 0 { gen_name(s) } else { format!("f{}", i) }, gen_leaf_ty(s))).collect())
        }
    };
    fit_block(&ty, &mut cfg);
    let co = limit_for(&cfg, CaseOpts { max_vals: 300, max_bytes: 2000, max_batches: 3, ..Default::default() });
    let batches = gen_batches(s, &ty, cfg.comp.block().max(1), &co);
    Case { ty, cfg, batches }
}

pub fn c08(s: &mut Src, info: &mut Info) -> R {
    let c = match p_scale::fixed_case(s, info).1 {
        Some(c) => c,
        None => schema_case(s),
    };
    describe(&c, info);
    info.nontrivial = c.ty.columns() >= 3;
    let bytes = file_how(&c, &gen_entry_how(s))?;
    let f = OrcFile::parse(&bytes)?;
    same_types(&f, &c.ty)?;
    let n = c.ty.columns();
    for (i, (m, t)) in f.footer.types.iter().zip(c.ty.preorder()).enumerate() {
        let want = match t {
            Ty::Dec(p, sc) => (None, Some(*p as u64), Some(*sc as u64)),
            Ty::Char(l) | Ty::VarChar(l) => (Some(*l as u64), None, None),
            _ => (None, None, None),
        };
        if (m.max_len, m.precision, m.scale) != want {
            return Err(format!("type {} ({}): maximumLength {:?} precision {:?} scale {:?}", i, t.render(), m.max_len, m.precision, m.scale));
        }
    }
    let cnt = |what: String, k: usize| if k == n { Ok(()) } else { Err(format!("{}: {} for {} columns", what, k, n)) };
    cnt("file statistics".into(), f.footer.stats.len())?;
    for (i, st) in f.stripes.iter().enumerate() {
        cnt(format!("encodings of stripe {}", i), st.footer.encodings.len())?;
        cnt(format!("row indexes of stripe {}", i), st.locs.iter().filter(|l| l.kind == ROW_INDEX).count())?;
        cnt(format!("statistics of stripe {}", i), f.meta.get(i).map_or(0, |m| m.len()))?;
        if let Some(k) = st.footer.encodings.iter().position(|e| e.0 != 0) {
            return Err(format!("stripe {}: column {} has encoding {:?}", i, k, st.footer.encodings[k]));
        }
    }
    Ok(())
}

fn small_stride(s: &mut Src, c: &mut Case) {
    match s.weighted(&[3, 3, 3, 1]) {
        0 => c.cfg.stride = Some(s.range(1, 16) as u32),
        1 => c.cfg.stride = Some(s.range(17, 300) as u32),
        2 => c.cfg.stride = Some(*s.pick(&[8u32, 64, 127, 128, 129, 130, 131, 256, 260, 512, 1024, 1040])),
        _ => {}
    }
}

pub fn c09(s: &mut Src, info: &mut Info) -> R {
    let c = match p_scale::fixed_case(s, info) {
        (Some(n @ 0..=1), _) => return p_scale::many_rows(info, n == 1),
        (Some(5), _) => return p_scale::long_file(info),
        (_, Some(c)) => c,
        _ => {
            let full_dec = s.chance(1, 3);
            let co = CaseOpts { max_vals: 4000, max_bytes: 30000, full_dec, ..Default::default() };
            let mut c = if s.chance(1, 6) {
                // statistics of decimals have their own arithmetic and text form
                let leaf = gen_decimal_ty(s);
                leaf_case(s, leaf, co)
            } else {
                gen_case(s, SchemaOpts::default(), co)
            };
            small_stride(s, &mut c);
            c
        }
    };
    describe(&c, info);
    info.label_if(c.rows() > 0 && c.rows() as u64 % c.cfg.stride_value() != 0, "partial last row group");
    let bytes = file_how(&c, &gen_how(s))?;
    let f = OrcFile::parse(&bytes)?;
    stripes_label(&f, info);
    let all = c.all_rows();
    let all = refs(&all);
    let parts = f.split_rows(&all)?;
    let n = c.ty.columns();
    if f.meta.len() != f.stripes.len() {
        return Err(format!("{} stripe statistics for {} stripes", f.meta.len(), f.stripes.len()));
    }
    for (i, p) in parts.iter().enumerate() {
        if f.meta[i].len() != n {
            return Err(format!("stripe {}: {} column statistics for {} columns", i, f.meta[i].len(), n));
        }
        for (id, col) in flatten(&c.ty, p).iter().enumerate() {
            check_stats(col.ty, &col.vals, &f.meta[i][id]).map_err(|e| format!("statistics of stripe {} column {} ({}): {}", i, id, col.ty.render(), e))?;
        }
    }
    if f.footer.stats.len() != n {
        return Err(format!("{} file statistics for {} columns", f.footer.stats.len(), n));
    }
    for (id, col) in flatten(&c.ty, &all).iter().enumerate() {
        check_stats(col.ty, &col.vals, &f.footer.stats[id]).map_err(|e| format!("file statistics of column {} ({}): {}", id, col.ty.render(), e))?;
    }
    Ok(())
}

fn index_case(s: &mut Src, info: &mut Info) -> (Case, Result<Vec<u8>, String>) {
    let c = match p_scale::fixed_case(s, info).1 {
        Some(c) => c,
        None => {
            let full_dec = s.chance(1, 5);
            let mut c = gen_case(s, SchemaOpts::default(), CaseOpts { max_vals: 4000, max_bytes: 30000, full_dec, ..Default::default() });
            small_stride(s, &mut c);
            c
        }
    };
    describe(&c, info);
    info.nontrivial = c.rows() as u64 > c.cfg.stride_value();
    let how = gen_how(s);
    let b = file_how(&c, &how);
    (c, b)
}

/// Cases for which the known finding about nested columns applies are judged leniently, if it is listed.
pub static NESTED_LENIENT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn lenient() -> bool {
    NESTED_LENIENT.load(std::sync::atomic::Ordering::SeqCst)
}

pub fn c10(s: &mut Src, info: &mut Info) -> R {
    let (c, bytes) = index_case(s, info);
    let bytes = bytes?;
    let f = OrcFile::parse(&bytes)?;
    stripes_label(&f, info);
    let all = c.all_rows();
    let all = refs(&all);
    if f.footer.stride != Some(c.cfg.stride_value()) {
        return Err(format!("row index stride {:?} recorded, {} configured", f.footer.stride, c.cfg.stride_value()));
    }
    index::check_group_stats(&f, &c.ty, &all, c.cfg.stride_value(), lenient())
}

pub fn c11(s: &mut Src, info: &mut Info) -> R {
    let (c, bytes) = index_case(s, info);
    let bytes = bytes?;
    let f = OrcFile::parse(&bytes)?;
    stripes_label(&f, info);
    let all = c.all_rows();
    let all = refs(&all);
    index::check_positions(&f, &c.ty, &all, c.cfg.stride_value(), lenient())
}

/// The fixed history that shows the known finding about nested columns.
pub fn nested_finding_case() -> (Case, Vec<u8>) {
    let row = |a: i64| Val::List(vec![Val::Int(a), Val::Int(a + 1)]);
    let c = Case {
        ty: Ty::List(Box::new(Ty::Long)),
        cfg: Cfg { stride: Some(2), comp: Comp::None, stripe: None },
        batches: vec![vec![row(0), row(10), row(20), row(30)]],
    };
    let b = file(&c).unwrap_or_default();
    (c, b)
}

pub fn nested_finding_stats() -> R {
    let (c, b) = nested_finding_case();
    let f = OrcFile::parse(&b)?;
    let all = c.all_rows();
    index::check_group_stats(&f, &c.ty, &refs(&all), 2, false)
}

pub fn nested_finding_positions() -> R {
    let (c, b) = nested_finding_case();
    let f = OrcFile::parse(&b)?;
    let all = c.all_rows();
    index::check_positions(&f, &c.ty, &refs(&all), 2, false)
}

fn check_chunks(st: &Stream, block: u64, what: &str) -> R {
    for c in &st.chunks {
        if c.raw_len as u64 > block {
            return Err(format!("{}: chunk at {} holds {} bytes, block size is {}", what, c.start, c.raw_len, block));
        }
        if c.stored > c.raw_len {
            return Err(format!("{}: chunk at {} is stored in {} bytes, its content is {} bytes", what, c.start, c.stored, c.raw_len));
        }
        if c.raw_len == 0 {
            return Err(format!("{}: empty chunk at {}", what, c.start));
        }
    }
    Ok(())
}

pub fn c12(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts { max_depth: 3, max_cols: 8, root_struct_pct: 60 }, CaseOpts { max_vals: 4000, max_bytes: 100_000, ..Default::default() });
    if s.chance(1, 40) {
        // one or a few huge values
        c.cfg.stripe = None;
        c.ty = Ty::Struct(vec![("v".into(), Ty::Bin)]);
        let k = s.us(1, 2);
        let max = 10_000_000 / k;
        c.batches = vec![(0..k)
            .map(|_| {
                let n = s.us(0, max);
                Val::Struct(vec![Val::Bin(gen_bytes(s, n))])
            })
            .collect()];
        c.cfg.comp = match s.below(3) {
            0 => Comp::Snappy(Some(s.us(100_000, 0x7fffff))),
            1 => Comp::Zstd(Some(s.us(100_000, 0x7fffff)), Some(1)),
            _ => Comp::Snappy(None),
        };
    }
    describe(&c, info);
    let bytes = file_how(&c, &gen_how(s))?;
    let f = OrcFile::parse(&bytes)?;
    stripes_label(&f, info);
    if f.ps.compression != Some(c.cfg.comp.kind()) {
        return Err(format!("postscript compression {:?}, {:?} configured", f.ps.compression, c.cfg.comp));
    }
    if c.cfg.comp != Comp::None {
        let block = f.ps.block_size.ok_or("no compressionBlockSize")?;
        if block != c.cfg.comp.block() as u64 {
            return Err(format!("compressionBlockSize {}, {} configured", block, c.cfg.comp.block()));
        }
        check_chunks(&f.footer_stream, block, "footer")?;
        check_chunks(&f.meta_stream, block, "metadata")?;
        for (i, st) in f.stripes.iter().enumerate() {
            check_chunks(&st.footer_stream, block, &format!("footer of stripe {}", i))?;
            for (k, x) in &st.streams {
                check_chunks(x, block, &format!("stripe {} column {} stream kind {}", i, k.0, k.1))?;
            }
        }
    }
    info.nontrivial = info.labels.contains(&"several chunks in a stream") || (c.cfg.comp == Comp::None && c.rows() > 0);
    let rows = c.all_rows();
    diff_rows(&f.decode_all(&c.ty)?, &refs(&rows))
}

/// Numbers recorded after the stream offset, per stream of a position list.
fn position_shape(t: &Ty, present: bool) -> Vec<(u64, usize)> {
    let mut v = Vec::new();
    if present {
        v.push((PRESENT, 2));
    }
    match t {
        Ty::Bool => v.push((DATA, 2)),
        Ty::Short | Ty::Int | Ty::Long | Ty::Date | Ty::Union(_) => v.push((DATA, 1)),
        Ty::Float | Ty::Double => v.push((DATA, 0)),
        Ty::Ts => v.extend([(DATA, 1), (SECONDARY, 1)]),
        Ty::Dec(..) => v.extend([(DATA, 0), (SECONDARY, 1)]),
        Ty::Str | Ty::Char(_) | Ty::VarChar(_) | Ty::Bin => v.extend([(DATA, 0), (LENGTH, 1)]),
        Ty::List(_) | Ty::Map(..) => v.push((LENGTH, 1)),
        Ty::Struct(_) => {}
    }
    v
}

/// Positions with compressed offsets translated to offsets in the uncompressed stream.
fn raw_positions(st: &StripeRd, id: usize, t: &Ty, p: &[u64]) -> Result<Vec<u64>, String> {
    let mut i = 0;
    let mut out = Vec::new();
    let mut take = || -> Result<u64, String> {
        i += 1;
        p.get(i - 1).copied().ok_or_else(|| format!("only {} positions", p.len()))
    };
    for (kind, extra) in position_shape(t, st.streams.contains_key(&(id as u64, PRESENT))) {
        let x = st.streams.get(&(id as u64, kind)).ok_or("missing stream")?;
        let a = take()?;
        out.push(if x.compressed {
            let b = take()?;
            x.seek(a, b)? as u64
        } else {
            a
        });
        for _ in 0..extra {
            out.push(take()?);
        }
    }
    if i != p.len() {
        return Err(format!("{} positions, {} expected", p.len(), i));
    }
    Ok(out)
}

pub fn same_content(a: &OrcFile, b: &OrcFile, ty: &Ty, names: (&str, &str)) -> R {
    let ne = |what: String| Err(format!("{} differ between {} and {}", what, names.0, names.1));
    if a.footer.types != b.footer.types {
        return ne("types".into());
    }
    // statistics may contain NaN: compare their rendering
    if format!("{:?}", a.footer.stats) != format!("{:?}", b.footer.stats) {
        return ne("file statistics".into());
    }
    if format!("{:?}", a.meta) != format!("{:?}", b.meta) {
        return ne("stripe statistics".into());
    }
    if a.footer.rows != b.footer.rows || a.footer.stride != b.footer.stride || a.footer.header_length != b.footer.header_length {
        return ne("row counts or stride".into());
    }
    if a.stripes.len() != b.stripes.len() || a.stripes.iter().zip(&b.stripes).any(|(x, y)| x.rows != y.rows) {
        return ne("stripes".into());
    }
    for (i, (x, y)) in a.stripes.iter().zip(&b.stripes).enumerate() {
        let l = |s: &StripeRd| s.footer.streams.iter().map(|m| (m.kind, m.column)).collect::<Vec<_>>();
        if l(x) != l(y) {
            return ne(format!("stream lists of stripe {}", i));
        }
        if x.footer.encodings != y.footer.encodings {
            return ne(format!("encodings of stripe {}", i));
        }
        for (k, sx) in &x.streams {
            if k.1 != ROW_INDEX && sx.data != y.streams[k].data {
                return ne(format!("contents of stripe {} column {} stream kind {}", i, k.0, k.1));
            }
        }
        for (id, t) in ty.preorder().iter().enumerate() {
            let (ex, ey) = (index::entries(x, id)?, index::entries(y, id)?);
            if ex.len() != ey.len() {
                return ne(format!("numbers of row groups of stripe {} column {}", i, id));
            }
            for (g, (p, q)) in ex.iter().zip(&ey).enumerate() {
                let e = |m| format!("stripe {} column {} row group {}: {}", i, id, g, m);
                if format!("{:?}", p.stats) != format!("{:?}", q.stats) {
                    return ne(e("statistics".into()));
                }
                if raw_positions(x, id, t, &p.positions).map_err(e)? != raw_positions(y, id, t, &q.positions).map_err(e)? {
                    return ne(e("positions".into()));
                }
            }
        }
    }
    Ok(())
}

pub fn c13(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts::default(), CaseOpts { max_vals: 3000, ..Default::default() });
    // Stripe boundaries that do not depend on the estimated size.
    let every = s.chance(1, 3);
    c.cfg.stripe = Some(if every { 0 } else { usize::MAX });
    if every {
        // The estimate of a stripe is 0 while all values are still pending in the encoders: use rows that force output.
        for b in &mut c.batches {
            b.truncate(600);
        }
    }
    small_stride(s, &mut c);
    describe(&c, info);
    info.nontrivial &= c.cfg.comp != Comp::None;
    let how = gen_how(s);
    let a = file_how(&c, &how)?;
    let mut base = c.clone();
    base.cfg.comp = Comp::None;
    let b = file_how(&base, &how)?;
    let (fa, fb) = (OrcFile::parse(&a)?, OrcFile::parse(&b)?);
    stripes_label(&fa, info);
    let na = format!("{:?}", c.cfg.comp);
    let bounds = |f: &OrcFile| f.stripes.iter().map(|s| s.rows).collect::<Vec<_>>();
    if bounds(&fa) != bounds(&fb) {
        if every {
            // Stripe boundaries differ (a compressed stripe can be estimated smaller): out of this property's scope.
            info.label("stripe boundaries differ");
            info.nontrivial = false;
            return Ok(());
        }
        return Err(format!("stripes {:?} with {}, {:?} uncompressed", bounds(&fa), na, bounds(&fb)));
    }
    same_content(&fa, &fb, &c.ty, (&na, "no compression"))?;
    // and another setting of the same codec
    let mut c2 = c.clone();
    c2.cfg.comp = gen_comp(s);
    let co = limit_for(&c2.cfg, CaseOpts { max_vals: i64::MAX, max_bytes: i64::MAX, ..Default::default() });
    if co.max_vals == i64::MAX || (c.rows() < 50 && b.len() < 200_000) {
        let d = file_how(&c2, &how)?;
        let fd = OrcFile::parse(&d)?;
        if bounds(&fd) == bounds(&fb) {
            same_content(&fd, &fb, &c.ty, (&format!("{:?}", c2.cfg.comp), "no compression"))?;
        } else if !every {
            return Err(format!("stripes {:?} with {:?}, {:?} uncompressed", bounds(&fd), c2.cfg.comp, bounds(&fb)));
        }
    }
    Ok(())
}

fn divide(s: &mut Src, rows: &[Val]) -> Vec<Vec<Val>> {
    let mut out = Vec::new();
    let mut p = 0;
    let style = s.below(4);
    while p < rows.len() || s.chance(1, 3) {
        let left = rows.len() - p;
        let n = match style {
            0 => left,
            1 => s.us(0, 3),
            2 => s.us(0, 200),
            _ => s.us(0, left),
        }
        .min(left);
        out.push(rows[p..p + n].to_vec());
        p += n;
        if out.len() > 3000 {
            out.push(rows[p..].to_vec());
            break;
        }
    }
    out
}

pub fn c14(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts::default(), CaseOpts { max_vals: 3000, ..Default::default() });
    small_stride(s, &mut c);
    let rows = c.all_rows();
    describe(&c, info);
    let mut one = c.clone();
    one.cfg.stripe = Some(usize::MAX);
    let mut other = one.clone();
    other.batches = divide(s, &rows);
    info.nontrivial &= other.batches.len() != one.batches.len();
    let how = gen_entry_how(s);
    let a = file_how(&one, &how)?;
    let b = file_how(&other, &how)?;
    if a != b {
        return Err(format!(
            "batches {:?} and {:?} give different files ({})",
            one.batches.iter().map(|b| b.len()).collect::<Vec<_>>(),
            other.batches.iter().map(|b| b.len()).collect::<Vec<_>>(),
            first_diff(&a, &b)
        ));
    }
    // now with stripes closed
    let mut cut = c.clone();
    cut.batches = if s.chance(1, 2) { other.batches } else { c.batches.clone() };
    cut.cfg.stripe = Some(match s.below(3) {
        0 => 0,
        1 => s.us(1, 100),
        _ => s.us(100, 4000),
    });
    let b = file_how(&cut, &how)?;
    let f = OrcFile::parse(&b)?;
    stripes_label(&f, info);
    let mut ends = std::collections::HashSet::new();
    let mut n = 0u64;
    for b in &cut.batches {
        n += b.len() as u64;
        ends.insert(n);
    }
    let mut p = 0;
    for (i, st) in f.stripes.iter().enumerate() {
        p += st.rows;
        if !ends.contains(&p) {
            return Err(format!("stripe {} ends after row {}, inside a batch", i, p));
        }
    }
    f.split_rows(&refs(&rows))?;
    diff_rows(&f.decode_all(&c.ty)?, &refs(&rows))
}

pub fn c15(s: &mut Src, info: &mut Info) -> R {
    let mut c = gen_case(s, SchemaOpts { root_struct_pct: 90, ..Default::default() }, CaseOpts { max_vals: 2500, ..Default::default() });
    small_stride(s, &mut c);
    describe(&c, info);
    info.nontrivial &= c.ty.columns() >= 3;
    let entry = gen_entry(s);
    let a = file_how(&c, &How { entry, ..PLAIN })?;
    for order in [Order::Columns, Order::ColumnsReverse, Order::Mixed, Order::Bursts] {
        let seed = s.below(1 << 16);
        info.sub += 1;
        let b = file_how(&c, &How { order, seed, entry })?;
        if a != b {
            return Err(format!("{:?} order gives another file than row by row ({})", order, first_diff(&a, &b)));
        }
    }
    Ok(())
}
