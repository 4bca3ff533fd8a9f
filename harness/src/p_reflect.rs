//! C26: the message types as seen through reflection, the text form, equality and the embedded descriptor.

use crate::engine::{Info, Src};
use crate::for_message;
use crate::p_proto::*;
use crate::proto_table::MSGS;
use protobuf::reflect::{ReflectFieldRef, ReflectValueRef};
use protobuf::{Message, ProtobufEnum};
use std::collections::BTreeMap;

fn value(v: &ReflectValueRef) -> Result<PV, String> {
    Ok(match v {
        ReflectValueRef::U32(x) => PV::U(*x as u64),
        ReflectValueRef::U64(x) => PV::U(*x),
        ReflectValueRef::I32(x) => PV::U(*x as i64 as u64),
        ReflectValueRef::I64(x) => PV::U(*x as u64),
        ReflectValueRef::F32(_) => return Err("a float field".into()),
        ReflectValueRef::F64(x) => PV::U(x.to_bits()),
        ReflectValueRef::Bool(x) => PV::U(*x as u64),
        ReflectValueRef::String(x) => PV::S(x.to_string()),
        ReflectValueRef::Bytes(x) => PV::B(x.to_vec()),
        ReflectValueRef::Enum(e) => PV::U(e.value() as u64),
        ReflectValueRef::Message(m) => PV::M(reflected(*m)?),
    })
}

/// The fields of a message as its own descriptor shows them.
fn reflected(m: &dyn Message) -> Result<Dyn, String> {
    let mut d = Dyn::default();
    let desc = m.descriptor();
    for f in desc.fields() {
        let vals = match f.get_reflect(m) {
            ReflectFieldRef::Repeated(r) => {
                if f.len_field(m) != r.len() {
                    return Err(format!("{}.{}: len_field is {}, {} elements", desc.name(), f.name(), f.len_field(m), r.len()));
                }
                (0..r.len()).map(|i| value(&r.get(i).as_ref())).collect::<Result<Vec<_>, _>>()?
            }
            ReflectFieldRef::Optional(o) => {
                if f.has_field(m) != o.is_some() {
                    return Err(format!("{}.{}: has_field is {}", desc.name(), f.name(), f.has_field(m)));
                }
                o.iter().map(value).collect::<Result<Vec<_>, _>>()?
            }
            ReflectFieldRef::Map(_) => return Err(format!("{}.{} is a map", desc.name(), f.name())),
        };
        if !vals.is_empty() {
            d.f.insert(f.proto().get_number() as u32, vals);
        }
    }
    Ok(d)
}

/// One element of a text form.
#[derive(Debug)]
enum Txt {
    Word(String),
    Quoted(Vec<u8>),
    Sub(Vec<(String, Txt)>),
}

/// `name: value name { ... }`, with any white space.
fn parse_text(b: &[u8], p: &mut usize, nested: bool) -> Result<Vec<(String, Txt)>, String> {
    let mut out = Vec::new();
    loop {
        while b.get(*p).map_or(false, |c| c.is_ascii_whitespace()) {
            *p += 1;
        }
        match b.get(*p) {
            None if !nested => return Ok(out),
            None => return Err("text form ends inside a message".into()),
            Some(b'}') if nested => {
                *p += 1;
                return Ok(out);
            }
            _ => {}
        }
        let s = *p;
        while b.get(*p).map_or(false, |c| c.is_ascii_alphanumeric() || *c == b'_') {
            *p += 1;
        }
        let name = String::from_utf8_lossy(&b[s..*p]).to_string();
        if name.is_empty() {
            return Err(format!("text form: a field name is missing at {}", s));
        }
        while b.get(*p).map_or(false, |c| c.is_ascii_whitespace() || *c == b':') {
            *p += 1;
        }
        let v = match b.get(*p) {
            Some(b'{') => {
                *p += 1;
                Txt::Sub(parse_text(b, p, true)?)
            }
            Some(b'"') => {
                *p += 1;
                let mut q = Vec::new();
                loop {
                    let c = *b.get(*p).ok_or("text form: open string")?;
                    *p += 1;
                    if c == b'"' {
                        break;
                    }
                    if c != b'\\' {
                        q.push(c);
                        continue;
                    }
                    let e = *b.get(*p).ok_or("text form: open escape")?;
                    *p += 1;
                    q.push(match e {
                        b'n' => b'\n',
                        b'r' => b'\r',
                        b't' => b'\t',
                        b'0'..=b'7' => {
                            let mut x = (e - b'0') as u32;
                            for _ in 0..2 {
                                if let Some(d @ b'0'..=b'7') = b.get(*p) {
                                    x = x * 8 + (d - b'0') as u32;
                                    *p += 1;
                                }
                            }
                            x as u8
                        }
                        c => c,
                    });
                }
                Txt::Quoted(q)
            }
            _ => {
                let s = *p;
                while b.get(*p).map_or(false, |c| !c.is_ascii_whitespace() && *c != b'}') {
                    *p += 1;
                }
                Txt::Word(String::from_utf8_lossy(&b[s..*p]).to_string())
            }
        };
        out.push((name, v));
    }
}

fn same_text(idx: usize, t: &[(String, Txt)], d: &Dyn) -> Result<(), String> {
    let m = &MSGS[idx];
    let mut seen: BTreeMap<u32, usize> = BTreeMap::new();
    for (name, v) in t {
        let f = m.fields.iter().find(|f| f.name == name).ok_or_else(|| format!("the text form of {} has a field {:?}", m.name, name))?;
        let n = seen.entry(f.num).or_insert(0);
        let want = match d.f.get(&f.num).and_then(|x| x.get(*n)) {
            Some(w) => w,
            None => return Err(format!("the text form of {} has {} values of {}, the message fewer", m.name, *n + 1, name)),
        };
        *n += 1;
        let ok = match (&f.kind, v) {
            (Kind::Msg(sub), Txt::Sub(x)) => {
                same_text(*sub, x, want.m())?;
                true
            }
            (Kind::Str, Txt::Quoted(x)) => x == want.s().as_bytes(),
            (Kind::Bytes, Txt::Quoted(x)) => x == want.b(),
            (Kind::Enum(known), Txt::Word(x)) => known.iter().any(|(n, v)| n == x && *v as u64 == want.u()),
            (Kind::Bool, Txt::Word(x)) => x == if want.u() != 0 { "true" } else { "false" },
            (Kind::S32 | Kind::S64, Txt::Word(x)) => x.parse() == Ok(want.u() as i64),
            (Kind::U32 | Kind::U64 | Kind::Fx64, Txt::Word(x)) => x.parse() == Ok(want.u()),
            (Kind::Dbl, Txt::Word(x)) => match x.parse::<f64>() {
                Ok(y) => y.to_bits() == want.u() || y.is_nan() && f64::from_bits(want.u()).is_nan(),
                Err(_) => false,
            },
            _ => false,
        };
        if !ok {
            return Err(format!("the text form of {}.{} is {:?}, the value is {:?}", m.name, name, v, want));
        }
    }
    for (num, v) in &d.f {
        if seen.get(num).copied().unwrap_or(0) != v.len() {
            return Err(format!("the text form of {} has {} values of field {}, the message {}", m.name, seen.get(num).copied().unwrap_or(0), num, v.len()));
        }
    }
    Ok(())
}

fn has_nan(idx: usize, d: &Dyn) -> bool {
    MSGS[idx].fields.iter().any(|f| {
        d.f.get(&f.num).map_or(false, |v| {
            v.iter().any(|x| match f.kind {
                Kind::Dbl => f64::from_bits(x.u()).is_nan(),
                Kind::Msg(s) => has_nan(s, x.m()),
                _ => false,
            })
        })
    })
}

/// Equal as field values: doubles compare as numbers.
fn same_fields(idx: usize, a: &Dyn, b: &Dyn) -> bool {
    a.unknown == b.unknown
        && a.f.len() == b.f.len()
        && a.f.iter().all(|(n, x)| {
            let f = MSGS[idx].fields.iter().find(|f| f.num == *n).unwrap();
            match b.f.get(n) {
                Some(y) if x.len() == y.len() => x.iter().zip(y).all(|(x, y)| match f.kind {
                    Kind::Dbl => f64::from_bits(x.u()) == f64::from_bits(y.u()),
                    Kind::Msg(s) => same_fields(s, x.m(), y.m()),
                    _ => x == y,
                }),
                _ => false,
            }
        })
}

fn inspect<T: Typed + std::fmt::Debug + protobuf::reflect::ProtobufValue>(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let name = MSGS[T::IDX].name;
    let d = gen_dyn(s, T::IDX, 0, true);
    info.desc = crate::model::clip(&format!("{} {:?}", name, d), 600);
    info.nontrivial = !d.f.is_empty();
    let m: T = from_dyn(&d);
    let mut plain = d.clone();
    strip(&mut plain);
    let r = reflected(&m)?;
    if r != plain {
        return Err(format!("{}: reflection shows {}, the message is {}", name, crate::model::clip(&format!("{:?}", r), 600), crate::model::clip(&format!("{:?}", plain), 600)));
    }
    // the message as a trait object
    let any: &dyn Message = &m;
    match any.as_any().downcast_ref::<T>() {
        Some(x) if std::ptr::eq(x, &m) => {}
        _ => return Err(format!("{}: as_any is not the message", name)),
    }
    if any.descriptor() as *const _ != T::descriptor_static() as *const _ {
        return Err(format!("{}: descriptor and descriptor_static differ", name));
    }
    match protobuf::reflect::ProtobufValue::as_ref(&m) {
        ReflectValueRef::Message(x) if x.descriptor().name() == name => {
            if reflected(x)? != plain {
                return Err(format!("{}: the reflected message differs from itself", name));
            }
        }
        x => return Err(format!("{}: reflects as {:?}", name, x)),
    }
    let boxed: Box<dyn Message> = Box::new(m.clone());
    match boxed.into_any().downcast::<T>() {
        Ok(mut x) => {
            if to_dyn(&mut *x) != d {
                return Err(format!("{}: into_any changes the message", name));
            }
            let any: &mut dyn Message = &mut *x;
            match any.as_any_mut().downcast_mut::<T>() {
                Some(y) => y.clear(),
                None => return Err(format!("{}: as_any_mut is not the message", name)),
            }
            if to_dyn(&mut *x) != Dyn::default() {
                return Err(format!("{}: clearing through as_any_mut leaves {:?}", name, to_dyn(&mut *x)));
            }
        }
        Err(_) => return Err(format!("{}: into_any is not the message", name)),
    }
    let fresh = T::descriptor_static().new_instance();
    match fresh.as_any().downcast_ref::<T>() {
        Some(x) if to_dyn(&mut x.clone()) == Dyn::default() => {}
        _ => return Err(format!("{}: new_instance is not an empty message", name)),
    }
    for (what, x) in [("default_instance", T::default_instance().clone()), ("default", T::default()), ("new", T::new())] {
        if to_dyn(&mut x.clone()) != Dyn::default() {
            return Err(format!("{}: {}() is {:?}", name, what, x));
        }
    }
    if !m.is_initialized() {
        return Err(format!("{}: not initialized, without required fields", name));
    }
    // text form
    for t in [format!("{:?}", m), format!("{:#?}", m), protobuf::text_format::print_to_string(&m)] {
        let p = parse_text(t.as_bytes(), &mut 0, false).map_err(|e| format!("{}: {} in {:?}", name, e, t))?;
        same_text(T::IDX, &p, &plain)?;
    }
    // cached sizes
    let size = m.compute_size();
    if m.get_cached_size() != size {
        return Err(format!("{}: cached size {} after computing {}", name, m.get_cached_size(), size));
    }
    // equality
    let nan = has_nan(T::IDX, &d);
    if (m == m.clone()) == nan {
        return Err(format!("{}: a message is {} to its clone", name, if nan { "equal" } else { "unequal" }));
    }
    let mut e = if s.chance(1, 4) { gen_dyn(s, T::IDX, 0, true) } else { d.clone() };
    for _ in 0..s.us(1, 2) {
        let f = s.pick(MSGS[T::IDX].fields);
        match s.below(4) {
            0 => {
                e.f.remove(&f.num);
            }
            1 => {
                let v = gen_vals(s, f, 1, true);
                e.f.insert(f.num, v);
            }
            2 => {
                e.f.insert(f.num, vec![default_pv(&f.kind)]);
            }
            _ => {
                if let Some(v) = e.f.get_mut(&f.num) {
                    if f.rep && s.chance(1, 2) {
                        v.pop();
                        if v.is_empty() {
                            e.f.remove(&f.num);
                        }
                    } else if let Some(PV::U(x)) = v.last_mut() {
                        if matches!(f.kind, Kind::U64 | Kind::S64 | Kind::Fx64 | Kind::Dbl) {
                            *x ^= 1 << s.below(64);
                        }
                    }
                }
            }
        }
    }
    let n: T = from_dyn(&e);
    let want = same_fields(T::IDX, &d, &e);
    info.label_if(want, "equal pair");
    if (m == n) != want || (n == m) != want {
        return Err(format!("{}: == gives {} and {}, should be {} for {:?} and {:?}", name, m == n, n == m, want, m, n));
    }
    Ok(())
}

fn strip(d: &mut Dyn) {
    d.unknown.clear();
    for v in d.f.values_mut() {
        for x in v {
            if let PV::M(m) = x {
                strip(m);
            }
        }
    }
}

fn enum_names<E: ProtobufEnum>(name: &str, known: &[(&str, i32)], first: E) -> Result<(), String> {
    let d = E::enum_descriptor_static();
    if d.name() != name.rsplit('.').next().unwrap() {
        return Err(format!("enum {} is named {}", name, d.name()));
    }
    if first.value() != known[0].1 {
        return Err(format!("enum {}: the default is {}", name, first.value()));
    }
    for (n, v) in known {
        let e = match E::from_i32(*v) {
            Some(e) => e,
            None => return Err(format!("enum {}: no {}", name, v)),
        };
        let x = e.descriptor();
        if x.name() != *n || x.value() != *v || d.value_by_name(n).value() != *v || d.value_by_number(*v).name() != *n {
            return Err(format!("enum {}: {} is described as {} = {}", name, n, x.name(), x.value()));
        }
    }
    Ok(())
}

/// The embedded file descriptor says what the published schema says.
fn file() -> Result<(), String> {
    use orc_format::protos::orc_proto as o;
    use protobuf::descriptor::{EnumDescriptorProto, FieldDescriptorProto_Label as Label};
    let d = o::file_descriptor_proto();
    if d.get_package() != "orc.proto" || d.get_options().get_java_package() != "org.apache.orc" || !d.get_dependency().is_empty() {
        return Err(format!("file descriptor: package {:?}, java package {:?}, dependencies {:?}", d.get_package(), d.get_options().get_java_package(), d.get_dependency()));
    }
    if d.get_syntax() != "" && d.get_syntax() != "proto2" {
        return Err(format!("file descriptor: syntax {:?}", d.get_syntax()));
    }
    let mut enums: Vec<(String, Vec<(&str, i32)>)> = Vec::new();
    let mut add = |scope: &str, e: &'static EnumDescriptorProto| {
        enums.push((format!("{}.{}", scope, e.get_name()), e.get_value().iter().map(|v| (v.get_name(), v.get_number())).collect()));
    };
    for e in d.get_enum_type() {
        add(".orc.proto", e);
    }
    for m in d.get_message_type() {
        for e in m.get_enum_type() {
            add(&format!(".orc.proto.{}", m.get_name()), e);
        }
        if !m.get_nested_type().is_empty() || !m.get_extension().is_empty() || !m.get_oneof_decl().is_empty() {
            return Err(format!("file descriptor: {} has nested types, extensions or oneofs", m.get_name()));
        }
    }
    let mut names: Vec<&str> = d.get_message_type().iter().map(|m| m.get_name()).collect();
    let mut want: Vec<&str> = MSGS.iter().map(|m| m.name).collect();
    names.sort();
    want.sort();
    if names != want {
        return Err(format!("file descriptor: messages {:?}, should be {:?}", names, want));
    }
    for m in MSGS {
        let x = d.get_message_type().iter().find(|x| x.get_name() == m.name).unwrap();
        if x.get_field().len() != m.fields.len() {
            return Err(format!("file descriptor: {} has {} fields", m.name, x.get_field().len()));
        }
        for f in m.fields {
            let y = x.get_field().iter().find(|y| y.get_name() == f.name).ok_or_else(|| format!("file descriptor: no {}.{}", m.name, f.name))?;
            let label = if f.rep { Label::LABEL_REPEATED } else { Label::LABEL_OPTIONAL };
            if y.get_number() as u32 != f.num || y.get_field_type().value() != type_number(&f.kind) || y.get_label() != label || y.get_options().get_packed() != f.packed || y.has_default_value() || y.has_extendee() {
                return Err(format!("file descriptor: {}.{} is described as {:?}", m.name, f.name, y));
            }
            match &f.kind {
                Kind::Msg(i) if y.get_type_name() != format!(".orc.proto.{}", MSGS[*i].name) => return Err(format!("file descriptor: {}.{} is a {}", m.name, f.name, y.get_type_name())),
                Kind::Enum(known) => {
                    let e = enums.iter().find(|e| e.0 == y.get_type_name()).ok_or_else(|| format!("file descriptor: {}.{} is of an unknown enum {}", m.name, f.name, y.get_type_name()))?;
                    if e.1[..] != known[..] {
                        return Err(format!("file descriptor: enum {} is {:?}, should be {:?}", e.0, e.1, known));
                    }
                }
                _ => {}
            }
        }
    }
    let vals = |m: &str, f: &str| -> &'static [(&'static str, i32)] {
        let d = MSGS.iter().find(|x| x.name == m).unwrap().fields.iter().find(|x| x.name == f).unwrap();
        if let Kind::Enum(v) = &d.kind { v } else { unreachable!() }
    };
    enum_names("Stream.Kind", vals("Stream", "kind"), o::Stream_Kind::default())?;
    enum_names("ColumnEncoding.Kind", vals("ColumnEncoding", "kind"), o::ColumnEncoding_Kind::default())?;
    enum_names("Type.Kind", vals("Type", "kind"), o::Type_Kind::default())?;
    enum_names("CompressionKind", vals("PostScript", "compression"), o::CompressionKind::default())
}

pub fn c26(s: &mut Src, info: &mut Info) -> Result<(), String> {
    let idx = s.below(MSGS.len() as u64) as usize;
    if s.chance(1, 64) {
        info.label("file descriptor and enums");
        file()?;
    }
    for_message!(idx, T => {
        if T::descriptor_static().full_name() != format!("orc.proto.{}", MSGS[idx].name) {
            return Err(format!("message {} is named {}", MSGS[idx].name, T::descriptor_static().full_name()));
        }
        inspect::<T>(s, info)
    })
}
