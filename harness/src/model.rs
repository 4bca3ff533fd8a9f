//! Schemas, values, configurations and write histories as plain data, independent of /repo's types.

use orc_format::schema::{Field, Schema};
use orc_format::writer::compression::{NoCompression, SnappyCompression, ZstdCompression};
use orc_format::writer::Config;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Bool,
    Short,
    Int,
    Long,
    Date,
    Float,
    Double,
    Ts,
    Dec(u32, u32),
    Str,
    Bin,
    Char(u32),
    VarChar(u32),
    Struct(Vec<(String, Ty)>),
    List(Box<Ty>),
    Map(Box<Ty>, Box<Ty>),
    Union(Vec<Ty>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    F32(u32),
    F64(u64),
    Ts(i64, u32),
    Dec(i128),
    Str(String),
    Bin(Vec<u8>),
    Struct(Vec<Val>),
    List(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Union(usize, Box<Val>),
}

impl Ty {
    pub fn schema(&self) -> Schema {
        match self {
            Ty::Bool => Schema::Boolean,
            Ty::Short => Schema::Short,
            Ty::Int => Schema::Int,
            Ty::Long => Schema::Long,
            Ty::Date => Schema::Date,
            Ty::Float => Schema::Float,
            Ty::Double => Schema::Double,
            Ty::Ts => Schema::Timestamp,
            Ty::Dec(p, s) => Schema::Decimal(*p, *s),
            Ty::Str => Schema::String,
            Ty::Bin => Schema::Binary,
            Ty::Char(n) => Schema::Char(*n),
            Ty::VarChar(n) => Schema::VarChar(*n),
            Ty::Struct(f) => Schema::Struct(f.iter().map(|(n, t)| Field(n.clone(), t.schema())).collect()),
            Ty::List(t) => Schema::List(Box::new(t.schema())),
            Ty::Map(k, v) => Schema::Map(Box::new(k.schema()), Box::new(v.schema())),
            Ty::Union(ts) => Schema::Union(ts.iter().map(|t| t.schema()).collect()),
        }
    }

    pub fn children(&self) -> Vec<&Ty> {
        match self {
            Ty::Struct(f) => f.iter().map(|(_, t)| t).collect(),
            Ty::List(t) => vec![t],
            Ty::Map(k, v) => vec![k, v],
            Ty::Union(ts) => ts.iter().collect(),
            _ => vec![],
        }
    }

    /// Number of columns of the subtree.
    pub fn columns(&self) -> usize {
        1 + self.children().iter().map(|c| c.columns()).sum::<usize>()
    }

    /// All nodes in pre-order (index = ORC column id).
    pub fn preorder(&self) -> Vec<&Ty> {
        fn go<'a>(t: &'a Ty, out: &mut Vec<&'a Ty>) {
            out.push(t);
            for c in t.children() {
                go(c, out);
            }
        }
        let mut v = Vec::new();
        go(self, &mut v);
        v
    }

    /// Path of child indices from the root for every column id.
    pub fn paths(&self) -> Vec<Vec<usize>> {
        fn go(t: &Ty, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
            out.push(cur.clone());
            for (i, c) in t.children().iter().enumerate() {
                cur.push(i);
                go(c, cur, out);
                cur.pop();
            }
        }
        let mut v = Vec::new();
        go(self, &mut Vec::new(), &mut v);
        v
    }

    pub fn is_leaf(&self) -> bool {
        !matches!(self, Ty::Struct(_) | Ty::List(_) | Ty::Map(..) | Ty::Union(_))
    }

    pub fn depth(&self) -> usize {
        1 + self.children().iter().map(|c| c.depth()).max().unwrap_or(0)
    }

    pub fn render(&self) -> String {
        match self {
            Ty::Struct(f) => {
                let v: Vec<String> = f.iter().map(|(n, t)| format!("{:?}:{}", n, t.render())).collect();
                format!("struct<{}>", clip(&v.join(","), 300))
            }
            Ty::List(t) => format!("list<{}>", t.render()),
            Ty::Map(k, v) => format!("map<{},{}>", k.render(), v.render()),
            Ty::Union(ts) => {
                let v: Vec<String> = ts.iter().map(|t| t.render()).collect();
                format!("union<{}>", clip(&v.join(","), 300))
            }
            t => format!("{:?}", t),
        }
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let t: String = s.chars().take(n).collect();
        format!("{}...", t)
    }
}

impl Val {
    pub fn is_null(&self) -> bool {
        matches!(self, Val::Null)
    }
    pub fn render(&self) -> String {
        match self {
            Val::F32(b) => format!("{:?}f32(0x{:08x})", f32::from_bits(*b), b),
            Val::F64(b) => format!("{:?}f64(0x{:016x})", f64::from_bits(*b), b),
            Val::Str(s) => clip(&format!("{:?}", s), 60) + &(if s.len() > 60 { format!("(len {})", s.len()) } else { String::new() }),
            Val::Bin(b) => {
                if b.len() > 24 {
                    format!("bin{:?}..(len {})", &b[..24], b.len())
                } else {
                    format!("bin{:?}", b)
                }
            }
            Val::Struct(v) => format!("({})", v.iter().map(|x| x.render()).collect::<Vec<_>>().join(",")),
            Val::List(v) => clip(&format!("[{}]", v.iter().take(40).map(|x| x.render()).collect::<Vec<_>>().join(",")), 200),
            Val::Map(v) => clip(
                &format!("{{{}}}", v.iter().take(40).map(|(k, x)| format!("{}=>{}", k.render(), x.render())).collect::<Vec<_>>().join(",")),
                200,
            ),
            Val::Union(t, v) => format!("{}#{}", t, v.render()),
            Val::Int(i) => format!("{}", i),
            Val::Bool(b) => format!("{}", b),
            Val::Dec(i) => format!("dec {}", i),
            Val::Ts(s, n) => format!("ts {}s+{}ns", s, n),
            Val::Null => "null".to_string(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comp {
    None,
    Snappy(Option<usize>),
    Zstd(Option<usize>, Option<i32>),
}

impl Comp {
    pub fn block(&self) -> usize {
        match self {
            Comp::None => 0,
            Comp::Snappy(b) => b.unwrap_or(262144),
            Comp::Zstd(b, _) => b.unwrap_or(262144),
        }
    }
    /// CompressionKind number of the ORC specification.
    pub fn kind(&self) -> u64 {
        match self {
            Comp::None => 0,
            Comp::Snappy(_) => 2,
            Comp::Zstd(..) => 5,
        }
    }
    pub fn build(&self) -> orc_format::writer::compression::Compression {
        match self {
            Comp::None => NoCompression::new().build(),
            Comp::Snappy(b) => {
                let mut c = SnappyCompression::new();
                if let Some(b) = b {
                    c = c.with_block_size(*b);
                }
                c.build()
            }
            Comp::Zstd(b, l) => {
                let mut c = ZstdCompression::new();
                if let Some(b) = b {
                    c = c.with_block_size(*b);
                }
                if let Some(l) = l {
                    c = c.with_compression_level(*l);
                }
                c.build()
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    /// None: leave the default.
    pub stride: Option<u32>,
    pub comp: Comp,
    pub stripe: Option<usize>,
}

impl Cfg {
    pub fn stride_value(&self) -> u64 {
        self.stride.unwrap_or(10000) as u64
    }
    pub fn stripe_value(&self) -> usize {
        self.stripe.unwrap_or(67108864)
    }
    pub fn build(&self) -> Config {
        let mut c = Config::new();
        if let Some(s) = self.stride {
            c = c.with_row_index_stride(s);
        }
        if self.comp != Comp::None {
            c = c.with_compression(self.comp.build());
        }
        if let Some(s) = self.stripe {
            c = c.with_stripe_size(s);
        }
        c
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub ty: Ty,
    pub cfg: Cfg,
    pub batches: Vec<Vec<Val>>,
}

impl Case {
    pub fn rows(&self) -> usize {
        self.batches.iter().map(|b| b.len()).sum()
    }
    pub fn all_rows(&self) -> Vec<Val> {
        self.batches.iter().flatten().cloned().collect()
    }
    pub fn render(&self) -> String {
        let mut s = String::new();
        let _ = write!(s, "schema={} cfg={:?} batches={:?} rows=[", self.ty.render(), self.cfg, self.batches.iter().map(|b| b.len()).collect::<Vec<_>>());
        let mut n = 0;
        'o: for b in &self.batches {
            for r in b {
                if n >= 12 || s.len() > 1500 {
                    s.push_str(" ...");
                    break 'o;
                }
                if n > 0 {
                    s.push_str("; ");
                }
                s.push_str(&clip(&r.render(), 240));
                n += 1;
            }
        }
        s.push(']');
        s
    }
}

/// The values of one column in order, flattened over a run of top-level rows.
pub struct FlatCol<'a> {
    pub ty: &'a Ty,
    pub vals: Vec<&'a Val>,
    /// vals[row_start[r]..row_start[r+1]] belong to top-level row r.
    pub row_start: Vec<usize>,
    /// True if every ancestor is a struct (so values correspond to rows unless a struct is null).
    pub struct_path: bool,
    pub depth: usize,
}

pub fn flatten<'a>(ty: &'a Ty, rows: &[&'a Val]) -> Vec<FlatCol<'a>> {
    let mut cols: Vec<FlatCol<'a>> = Vec::new();
    fn init<'a>(t: &'a Ty, sp: bool, depth: usize, out: &mut Vec<FlatCol<'a>>) {
        out.push(FlatCol { ty: t, vals: Vec::new(), row_start: vec![0], struct_path: sp, depth });
        let csp = sp && matches!(t, Ty::Struct(_));
        for c in t.children() {
            init(c, csp, depth + 1, out);
        }
    }
    init(ty, true, 0, &mut cols);
    fn go<'a>(t: &'a Ty, v: &'a Val, id: usize, cols: &mut Vec<FlatCol<'a>>) {
        cols[id].vals.push(v);
        match (t, v) {
            (_, Val::Null) => {}
            (Ty::Struct(f), Val::Struct(vs)) => {
                let mut c = id + 1;
                for ((_, ct), cv) in f.iter().zip(vs) {
                    go(ct, cv, c, cols);
                    c += ct.columns();
                }
            }
            (Ty::List(ct), Val::List(vs)) => {
                for cv in vs {
                    go(ct, cv, id + 1, cols);
                }
            }
            (Ty::Map(kt, vt), Val::Map(vs)) => {
                let vid = id + 1 + kt.columns();
                for (k, x) in vs {
                    go(kt, k, id + 1, cols);
                    go(vt, x, vid, cols);
                }
            }
            (Ty::Union(ts), Val::Union(tag, x)) => {
                let mut c = id + 1;
                for t2 in &ts[..*tag] {
                    c += t2.columns();
                }
                go(&ts[*tag], x, c, cols);
            }
            _ => {}
        }
    }
    for r in rows {
        go(ty, r, 0, &mut cols);
        for c in cols.iter_mut() {
            let n = c.vals.len();
            c.row_start.push(n);
        }
    }
    cols
}
