#!/usr/bin/env python3
"""Writes harness/src/proto_table.rs from tools/orc_proto.proto (a copy of the published ORC schema)."""
import os, re
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, 'orc_proto.proto')).read()
src = re.sub(r'/\*.*?\*/', '', src, flags=re.S)
src = re.sub(r'//[^\n]*', '', src)
toks = re.findall(r'[A-Za-z_][A-Za-z0-9_.]*|\d+|"[^"]*"|[{}=;\[\]]', src)
msgs, enums = [], {}
i = 0
def enum(prefix):
    global i
    name = prefix + toks[i]; i += 2
    vals = []
    while toks[i] != '}':
        vals.append((toks[i], int(toks[i + 2]))); i += 4
    i += 1
    enums[name] = vals
while i < len(toks):
    t = toks[i]
    if t in ('syntax', 'package', 'option'):
        while toks[i] != ';': i += 1
        i += 1
    elif t == 'enum':
        i += 1; enum('')
    elif t == 'message':
        name = toks[i + 1]; i += 3
        fields = []
        while toks[i] != '}':
            if toks[i] == 'enum':
                i += 1; enum(name + '_'); continue
            label, typ, fname, num = toks[i], toks[i + 1], toks[i + 2], int(toks[i + 4]); i += 5
            packed = False
            if toks[i] == '[':
                packed = 'packed' in toks[i:i + 5]
                while toks[i] != ']': i += 1
                i += 1
            assert toks[i] == ';', (name, fname, toks[i]); i += 1
            fields.append((label, typ, fname, num, packed))
        i += 1
        msgs.append((name, fields))
idx = {m[0]: k for k, m in enumerate(msgs)}
S = {'uint32': 'U32', 'uint64': 'U64', 'sint32': 'S32', 'sint64': 'S64', 'bool': 'Bool', 'double': 'Dbl', 'fixed64': 'Fx64', 'string': 'Str', 'bytes': 'Bytes'}
o = ['// Generated by tools/gen_proto.py from tools/orc_proto.proto. Do not edit.', '',
     '#![allow(clippy::all)]', 'use crate::p_proto::*;', 'use orc_format::protos::orc_proto as o;', 'use protobuf::ProtobufEnum;', '']
o.append('pub static MSGS: &[MsgDesc] = &[')
def ename(m, t): return m + '_' + t if m + '_' + t in enums else t
for m, fs in msgs:
    o.append('    MsgDesc { name: "%s", fields: &[' % m)
    for label, typ, f, num, packed in fs:
        if typ in S: k = 'Kind::' + S[typ]
        elif typ in idx: k = 'Kind::Msg(%d)' % idx[typ]
        else: k = 'Kind::Enum(&[%s])' % ', '.join('("%s", %d)' % v for v in enums[ename(m, typ)])
        o.append('        FieldDesc { num: %d, name: "%s", kind: %s, rep: %s, packed: %s },' % (num, f, k, str(label == 'repeated').lower(), str(packed).lower()))
    o.append('    ] },')
o.append('];'); o.append('')
o.append('#[macro_export]\nmacro_rules! for_message {\n    ($idx:expr, $t:ident => $e:expr) => {\n        match $idx {')
for k, (m, fs) in enumerate(msgs):
    o.append('            %d => { type $t = orc_format::protos::orc_proto::%s; $e }' % (k, m))
o.append('            _ => unreachable!(),\n        }\n    };\n}\n')
to = {'uint32': 'PV::U({} as u64)', 'uint64': 'PV::U({})', 'sint32': 'PV::U({} as i64 as u64)', 'sint64': 'PV::U({} as u64)', 'bool': 'PV::U({} as u64)', 'double': 'PV::U({}.to_bits())', 'fixed64': 'PV::U({})', 'string': 'PV::S({}.to_string())', 'bytes': 'PV::B({}.to_vec())'}
fr = {'uint32': '{}.u() as u32', 'uint64': '{}.u()', 'sint32': '{}.u() as i32', 'sint64': '{}.u() as i64', 'bool': '({}.u() != 0)', 'double': 'f64::from_bits({}.u())', 'fixed64': '{}.u()', 'string': '{}.s().to_string()', 'bytes': '{}.b().to_vec()'}
for m, fs in msgs:
    o.append('impl Typed for o::%s {' % m)
    o.append('    const IDX: usize = %d;' % idx[m])
    o.append('    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {')
    o.append('        match (num, op) {')
    for label, typ, f, num, packed in fs:
        if typ in S: T, Fv = to[typ], fr[typ]
        elif typ in idx: T, Fv = 'PV::M(to_dyn(&mut {}.clone()))', 'from_dyn::<o::%s>({}.m())' % typ
        else: T, Fv = 'PV::U({}.value() as u64)', 'o::%s::from_i32({}.u() as i32).unwrap()' % ename(m, typ)
        heavy = typ in ('string', 'bytes') or typ in idx
        a = lambda op, e: o.append('            (%d, FieldOp::%s) => { %s }' % (num, op, e))
        if label == 'repeated':
            wrap = 'protobuf::RepeatedField::from_vec(%s)' if heavy else '%s'
            vec = 'v.iter().map(|x| %s).collect::<Vec<_>>()' % Fv.format('x')
            deref = '(*x)' if not heavy else 'x'
            a('Set', 'self.set_%s(%s); vec![]' % (f, wrap % vec))
            a('Get', 'self.get_%s().iter().map(|x| %s).collect()' % (f, T.format(deref)))
            a('Has', 'vec![PV::U((!self.get_%s().is_empty()) as u64)]' % f)
            a('Clear', 'self.clear_%s(); vec![]' % f)
            a('Mut', 'for x in v { let y = %s; self.mut_%s().push(y); } vec![]' % (Fv.format('x'), f))
            a('Take', 'self.take_%s().iter().map(|x| %s).collect()' % (f, T.format(deref)))
        else:
            a('Set', 'self.set_%s(%s); vec![]' % (f, Fv.format('v[0]')))
            a('Get', 'vec![%s]' % T.format('self.get_%s()' % f))
            a('Has', 'vec![PV::U(self.has_%s() as u64)]' % f)
            a('Clear', 'self.clear_%s(); vec![]' % f)
            if heavy:
                a('Mut', '*self.mut_%s() = %s; vec![]' % (f, Fv.format('v[0]')))
                a('Take', 'vec![%s]' % T.format('self.take_%s()' % f))
            else:
                a('Mut', 'self.set_%s(%s); vec![]' % (f, Fv.format('v[0]')))
                a('Take', 'let r = vec![%s]; self.clear_%s(); r' % (T.format('self.get_%s()' % f), f))
    o.append('            _ => unreachable!(),')
    o.append('        }\n    }\n}\n')
open(os.path.join(here, '..', 'harness', 'src', 'proto_table.rs'), 'w').write('\n'.join(o))
