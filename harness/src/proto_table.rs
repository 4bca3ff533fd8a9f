// Generated by tools/gen_proto.py from tools/orc_proto.proto. Do not edit.

#![allow(clippy::all)]
use crate::p_proto::*;
use orc_format::protos::orc_proto as o;
use protobuf::ProtobufEnum;

pub static MSGS: &[MsgDesc] = &[
    MsgDesc { name: "IntegerStatistics", fields: &[
        FieldDesc { num: 1, name: "minimum", kind: Kind::S64, rep: false, packed: false },
        FieldDesc { num: 2, name: "maximum", kind: Kind::S64, rep: false, packed: false },
        FieldDesc { num: 3, name: "sum", kind: Kind::S64, rep: false, packed: false },
    ] },
    MsgDesc { name: "DoubleStatistics", fields: &[
        FieldDesc { num: 1, name: "minimum", kind: Kind::Dbl, rep: false, packed: false },
        FieldDesc { num: 2, name: "maximum", kind: Kind::Dbl, rep: false, packed: false },
        FieldDesc { num: 3, name: "sum", kind: Kind::Dbl, rep: false, packed: false },
    ] },
    MsgDesc { name: "StringStatistics", fields: &[
        FieldDesc { num: 1, name: "minimum", kind: Kind::Str, rep: false, packed: false },
        FieldDesc { num: 2, name: "maximum", kind: Kind::Str, rep: false, packed: false },
        FieldDesc { num: 3, name: "sum", kind: Kind::S64, rep: false, packed: false },
    ] },
    MsgDesc { name: "BucketStatistics", fields: &[
        FieldDesc { num: 1, name: "count", kind: Kind::U64, rep: true, packed: true },
    ] },
    MsgDesc { name: "DecimalStatistics", fields: &[
        FieldDesc { num: 1, name: "minimum", kind: Kind::Str, rep: false, packed: false },
        FieldDesc { num: 2, name: "maximum", kind: Kind::Str, rep: false, packed: false },
        FieldDesc { num: 3, name: "sum", kind: Kind::Str, rep: false, packed: false },
    ] },
    MsgDesc { name: "DateStatistics", fields: &[
        FieldDesc { num: 1, name: "minimum", kind: Kind::S32, rep: false, packed: false },
        FieldDesc { num: 2, name: "maximum", kind: Kind::S32, rep: false, packed: false },
    ] },
    MsgDesc { name: "TimestampStatistics", fields: &[
        FieldDesc { num: 1, name: "minimum", kind: Kind::S64, rep: false, packed: false },
        FieldDesc { num: 2, name: "maximum", kind: Kind::S64, rep: false, packed: false },
        FieldDesc { num: 3, name: "minimumUtc", kind: Kind::S64, rep: false, packed: false },
        FieldDesc { num: 4, name: "maximumUtc", kind: Kind::S64, rep: false, packed: false },
    ] },
    MsgDesc { name: "BinaryStatistics", fields: &[
        FieldDesc { num: 1, name: "sum", kind: Kind::S64, rep: false, packed: false },
    ] },
    MsgDesc { name: "ColumnStatistics", fields: &[
        FieldDesc { num: 1, name: "numberOfValues", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 2, name: "intStatistics", kind: Kind::Msg(0), rep: false, packed: false },
        FieldDesc { num: 3, name: "doubleStatistics", kind: Kind::Msg(1), rep: false, packed: false },
        FieldDesc { num: 4, name: "stringStatistics", kind: Kind::Msg(2), rep: false, packed: false },
        FieldDesc { num: 5, name: "bucketStatistics", kind: Kind::Msg(3), rep: false, packed: false },
        FieldDesc { num: 6, name: "decimalStatistics", kind: Kind::Msg(4), rep: false, packed: false },
        FieldDesc { num: 7, name: "dateStatistics", kind: Kind::Msg(5), rep: false, packed: false },
        FieldDesc { num: 8, name: "binaryStatistics", kind: Kind::Msg(7), rep: false, packed: false },
        FieldDesc { num: 9, name: "timestampStatistics", kind: Kind::Msg(6), rep: false, packed: false },
        FieldDesc { num: 10, name: "hasNull", kind: Kind::Bool, rep: false, packed: false },
        FieldDesc { num: 11, name: "bytesOnDisk", kind: Kind::U64, rep: false, packed: false },
    ] },
    MsgDesc { name: "RowIndexEntry", fields: &[
        FieldDesc { num: 1, name: "positions", kind: Kind::U64, rep: true, packed: true },
        FieldDesc { num: 2, name: "statistics", kind: Kind::Msg(8), rep: false, packed: false },
    ] },
    MsgDesc { name: "RowIndex", fields: &[
        FieldDesc { num: 1, name: "entry", kind: Kind::Msg(9), rep: true, packed: false },
    ] },
    MsgDesc { name: "BloomFilter", fields: &[
        FieldDesc { num: 1, name: "numHashFunctions", kind: Kind::U32, rep: false, packed: false },
        FieldDesc { num: 2, name: "bitset", kind: Kind::Fx64, rep: true, packed: false },
        FieldDesc { num: 3, name: "utf8bitset", kind: Kind::Bytes, rep: false, packed: false },
    ] },
    MsgDesc { name: "BloomFilterIndex", fields: &[
        FieldDesc { num: 1, name: "bloomFilter", kind: Kind::Msg(11), rep: true, packed: false },
    ] },
    MsgDesc { name: "Stream", fields: &[
        FieldDesc { num: 1, name: "kind", kind: Kind::Enum(&[("PRESENT", 0), ("DATA", 1), ("LENGTH", 2), ("DICTIONARY_DATA", 3), ("DICTIONARY_COUNT", 4), ("SECONDARY", 5), ("ROW_INDEX", 6), ("BLOOM_FILTER", 7), ("BLOOM_FILTER_UTF8", 8)]), rep: false, packed: false },
        FieldDesc { num: 2, name: "column", kind: Kind::U32, rep: false, packed: false },
        FieldDesc { num: 3, name: "length", kind: Kind::U64, rep: false, packed: false },
    ] },
    MsgDesc { name: "ColumnEncoding", fields: &[
        FieldDesc { num: 1, name: "kind", kind: Kind::Enum(&[("DIRECT", 0), ("DICTIONARY", 1), ("DIRECT_V2", 2), ("DICTIONARY_V2", 3)]), rep: false, packed: false },
        FieldDesc { num: 2, name: "dictionarySize", kind: Kind::U32, rep: false, packed: false },
        FieldDesc { num: 3, name: "bloomEncoding", kind: Kind::U32, rep: false, packed: false },
    ] },
    MsgDesc { name: "StripeFooter", fields: &[
        FieldDesc { num: 1, name: "streams", kind: Kind::Msg(13), rep: true, packed: false },
        FieldDesc { num: 2, name: "columns", kind: Kind::Msg(14), rep: true, packed: false },
        FieldDesc { num: 3, name: "writerTimezone", kind: Kind::Str, rep: false, packed: false },
    ] },
    MsgDesc { name: "Type", fields: &[
        FieldDesc { num: 1, name: "kind", kind: Kind::Enum(&[("BOOLEAN", 0), ("BYTE", 1), ("SHORT", 2), ("INT", 3), ("LONG", 4), ("FLOAT", 5), ("DOUBLE", 6), ("STRING", 7), ("BINARY", 8), ("TIMESTAMP", 9), ("LIST", 10), ("MAP", 11), ("STRUCT", 12), ("UNION", 13), ("DECIMAL", 14), ("DATE", 15), ("VARCHAR", 16), ("CHAR", 17)]), rep: false, packed: false },
        FieldDesc { num: 2, name: "subtypes", kind: Kind::U32, rep: true, packed: true },
        FieldDesc { num: 3, name: "fieldNames", kind: Kind::Str, rep: true, packed: false },
        FieldDesc { num: 4, name: "maximumLength", kind: Kind::U32, rep: false, packed: false },
        FieldDesc { num: 5, name: "precision", kind: Kind::U32, rep: false, packed: false },
        FieldDesc { num: 6, name: "scale", kind: Kind::U32, rep: false, packed: false },
    ] },
    MsgDesc { name: "StripeInformation", fields: &[
        FieldDesc { num: 1, name: "offset", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 2, name: "indexLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 3, name: "dataLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 4, name: "footerLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 5, name: "numberOfRows", kind: Kind::U64, rep: false, packed: false },
    ] },
    MsgDesc { name: "UserMetadataItem", fields: &[
        FieldDesc { num: 1, name: "name", kind: Kind::Str, rep: false, packed: false },
        FieldDesc { num: 2, name: "value", kind: Kind::Bytes, rep: false, packed: false },
    ] },
    MsgDesc { name: "StripeStatistics", fields: &[
        FieldDesc { num: 1, name: "colStats", kind: Kind::Msg(8), rep: true, packed: false },
    ] },
    MsgDesc { name: "Metadata", fields: &[
        FieldDesc { num: 1, name: "stripeStats", kind: Kind::Msg(19), rep: true, packed: false },
    ] },
    MsgDesc { name: "Footer", fields: &[
        FieldDesc { num: 1, name: "headerLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 2, name: "contentLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 3, name: "stripes", kind: Kind::Msg(17), rep: true, packed: false },
        FieldDesc { num: 4, name: "types", kind: Kind::Msg(16), rep: true, packed: false },
        FieldDesc { num: 5, name: "metadata", kind: Kind::Msg(18), rep: true, packed: false },
        FieldDesc { num: 6, name: "numberOfRows", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 7, name: "statistics", kind: Kind::Msg(8), rep: true, packed: false },
        FieldDesc { num: 8, name: "rowIndexStride", kind: Kind::U32, rep: false, packed: false },
        FieldDesc { num: 9, name: "writer", kind: Kind::U32, rep: false, packed: false },
    ] },
    MsgDesc { name: "PostScript", fields: &[
        FieldDesc { num: 1, name: "footerLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 2, name: "compression", kind: Kind::Enum(&[("NONE", 0), ("ZLIB", 1), ("SNAPPY", 2), ("LZO", 3), ("LZ4", 4), ("ZSTD", 5)]), rep: false, packed: false },
        FieldDesc { num: 3, name: "compressionBlockSize", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 4, name: "version", kind: Kind::U32, rep: true, packed: true },
        FieldDesc { num: 5, name: "metadataLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 6, name: "writerVersion", kind: Kind::U32, rep: false, packed: false },
        FieldDesc { num: 8000, name: "magic", kind: Kind::Str, rep: false, packed: false },
    ] },
    MsgDesc { name: "FileTail", fields: &[
        FieldDesc { num: 1, name: "postscript", kind: Kind::Msg(22), rep: false, packed: false },
        FieldDesc { num: 2, name: "footer", kind: Kind::Msg(21), rep: false, packed: false },
        FieldDesc { num: 3, name: "fileLength", kind: Kind::U64, rep: false, packed: false },
        FieldDesc { num: 4, name: "postscriptLength", kind: Kind::U64, rep: false, packed: false },
    ] },
];

#[macro_export]
macro_rules! for_message {
    ($idx:expr, $t:ident => $e:expr) => {
        match $idx {
            0 => { type $t = orc_format::protos::orc_proto::IntegerStatistics; $e }
            1 => { type $t = orc_format::protos::orc_proto::DoubleStatistics; $e }
            2 => { type $t = orc_format::protos::orc_proto::StringStatistics; $e }
            3 => { type $t = orc_format::protos::orc_proto::BucketStatistics; $e }
            4 => { type $t = orc_format::protos::orc_proto::DecimalStatistics; $e }
            5 => { type $t = orc_format::protos::orc_proto::DateStatistics; $e }
            6 => { type $t = orc_format::protos::orc_proto::TimestampStatistics; $e }
            7 => { type $t = orc_format::protos::orc_proto::BinaryStatistics; $e }
            8 => { type $t = orc_format::protos::orc_proto::ColumnStatistics; $e }
            9 => { type $t = orc_format::protos::orc_proto::RowIndexEntry; $e }
            10 => { type $t = orc_format::protos::orc_proto::RowIndex; $e }
            11 => { type $t = orc_format::protos::orc_proto::BloomFilter; $e }
            12 => { type $t = orc_format::protos::orc_proto::BloomFilterIndex; $e }
            13 => { type $t = orc_format::protos::orc_proto::Stream; $e }
            14 => { type $t = orc_format::protos::orc_proto::ColumnEncoding; $e }
            15 => { type $t = orc_format::protos::orc_proto::StripeFooter; $e }
            16 => { type $t = orc_format::protos::orc_proto::Type; $e }
            17 => { type $t = orc_format::protos::orc_proto::StripeInformation; $e }
            18 => { type $t = orc_format::protos::orc_proto::UserMetadataItem; $e }
            19 => { type $t = orc_format::protos::orc_proto::StripeStatistics; $e }
            20 => { type $t = orc_format::protos::orc_proto::Metadata; $e }
            21 => { type $t = orc_format::protos::orc_proto::Footer; $e }
            22 => { type $t = orc_format::protos::orc_proto::PostScript; $e }
            23 => { type $t = orc_format::protos::orc_proto::FileTail; $e }
            _ => unreachable!(),
        }
    };
}

impl Typed for o::IntegerStatistics {
    const IDX: usize = 0;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_minimum(v[0].u() as i64); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_minimum() as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_minimum() as u64)] }
            (1, FieldOp::Clear) => { self.clear_minimum(); vec![] }
            (1, FieldOp::Mut) => { self.set_minimum(v[0].u() as i64); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_minimum() as u64)]; self.clear_minimum(); r }
            (2, FieldOp::Set) => { self.set_maximum(v[0].u() as i64); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_maximum() as u64)] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_maximum() as u64)] }
            (2, FieldOp::Clear) => { self.clear_maximum(); vec![] }
            (2, FieldOp::Mut) => { self.set_maximum(v[0].u() as i64); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_maximum() as u64)]; self.clear_maximum(); r }
            (3, FieldOp::Set) => { self.set_sum(v[0].u() as i64); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_sum() as u64)] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_sum() as u64)] }
            (3, FieldOp::Clear) => { self.clear_sum(); vec![] }
            (3, FieldOp::Mut) => { self.set_sum(v[0].u() as i64); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_sum() as u64)]; self.clear_sum(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::DoubleStatistics {
    const IDX: usize = 1;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_minimum(f64::from_bits(v[0].u())); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_minimum().to_bits())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_minimum() as u64)] }
            (1, FieldOp::Clear) => { self.clear_minimum(); vec![] }
            (1, FieldOp::Mut) => { self.set_minimum(f64::from_bits(v[0].u())); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_minimum().to_bits())]; self.clear_minimum(); r }
            (2, FieldOp::Set) => { self.set_maximum(f64::from_bits(v[0].u())); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_maximum().to_bits())] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_maximum() as u64)] }
            (2, FieldOp::Clear) => { self.clear_maximum(); vec![] }
            (2, FieldOp::Mut) => { self.set_maximum(f64::from_bits(v[0].u())); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_maximum().to_bits())]; self.clear_maximum(); r }
            (3, FieldOp::Set) => { self.set_sum(f64::from_bits(v[0].u())); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_sum().to_bits())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_sum() as u64)] }
            (3, FieldOp::Clear) => { self.clear_sum(); vec![] }
            (3, FieldOp::Mut) => { self.set_sum(f64::from_bits(v[0].u())); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_sum().to_bits())]; self.clear_sum(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::StringStatistics {
    const IDX: usize = 2;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_minimum(v[0].s().to_string()); vec![] }
            (1, FieldOp::Get) => { vec![PV::S(self.get_minimum().to_string())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_minimum() as u64)] }
            (1, FieldOp::Clear) => { self.clear_minimum(); vec![] }
            (1, FieldOp::Mut) => { *self.mut_minimum() = v[0].s().to_string(); vec![] }
            (1, FieldOp::Take) => { vec![PV::S(self.take_minimum().to_string())] }
            (2, FieldOp::Set) => { self.set_maximum(v[0].s().to_string()); vec![] }
            (2, FieldOp::Get) => { vec![PV::S(self.get_maximum().to_string())] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_maximum() as u64)] }
            (2, FieldOp::Clear) => { self.clear_maximum(); vec![] }
            (2, FieldOp::Mut) => { *self.mut_maximum() = v[0].s().to_string(); vec![] }
            (2, FieldOp::Take) => { vec![PV::S(self.take_maximum().to_string())] }
            (3, FieldOp::Set) => { self.set_sum(v[0].u() as i64); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_sum() as u64)] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_sum() as u64)] }
            (3, FieldOp::Clear) => { self.clear_sum(); vec![] }
            (3, FieldOp::Mut) => { self.set_sum(v[0].u() as i64); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_sum() as u64)]; self.clear_sum(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::BucketStatistics {
    const IDX: usize = 3;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_count(v.iter().map(|x| x.u()).collect::<Vec<_>>()); vec![] }
            (1, FieldOp::Get) => { self.get_count().iter().map(|x| PV::U((*x))).collect() }
            (1, FieldOp::Has) => { vec![PV::U((!self.get_count().is_empty()) as u64)] }
            (1, FieldOp::Clear) => { self.clear_count(); vec![] }
            (1, FieldOp::Mut) => { for x in v { let y = x.u(); self.mut_count().push(y); } vec![] }
            (1, FieldOp::Take) => { self.take_count().iter().map(|x| PV::U((*x))).collect() }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::DecimalStatistics {
    const IDX: usize = 4;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_minimum(v[0].s().to_string()); vec![] }
            (1, FieldOp::Get) => { vec![PV::S(self.get_minimum().to_string())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_minimum() as u64)] }
            (1, FieldOp::Clear) => { self.clear_minimum(); vec![] }
            (1, FieldOp::Mut) => { *self.mut_minimum() = v[0].s().to_string(); vec![] }
            (1, FieldOp::Take) => { vec![PV::S(self.take_minimum().to_string())] }
            (2, FieldOp::Set) => { self.set_maximum(v[0].s().to_string()); vec![] }
            (2, FieldOp::Get) => { vec![PV::S(self.get_maximum().to_string())] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_maximum() as u64)] }
            (2, FieldOp::Clear) => { self.clear_maximum(); vec![] }
            (2, FieldOp::Mut) => { *self.mut_maximum() = v[0].s().to_string(); vec![] }
            (2, FieldOp::Take) => { vec![PV::S(self.take_maximum().to_string())] }
            (3, FieldOp::Set) => { self.set_sum(v[0].s().to_string()); vec![] }
            (3, FieldOp::Get) => { vec![PV::S(self.get_sum().to_string())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_sum() as u64)] }
            (3, FieldOp::Clear) => { self.clear_sum(); vec![] }
            (3, FieldOp::Mut) => { *self.mut_sum() = v[0].s().to_string(); vec![] }
            (3, FieldOp::Take) => { vec![PV::S(self.take_sum().to_string())] }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::DateStatistics {
    const IDX: usize = 5;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_minimum(v[0].u() as i32); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_minimum() as i64 as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_minimum() as u64)] }
            (1, FieldOp::Clear) => { self.clear_minimum(); vec![] }
            (1, FieldOp::Mut) => { self.set_minimum(v[0].u() as i32); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_minimum() as i64 as u64)]; self.clear_minimum(); r }
            (2, FieldOp::Set) => { self.set_maximum(v[0].u() as i32); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_maximum() as i64 as u64)] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_maximum() as u64)] }
            (2, FieldOp::Clear) => { self.clear_maximum(); vec![] }
            (2, FieldOp::Mut) => { self.set_maximum(v[0].u() as i32); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_maximum() as i64 as u64)]; self.clear_maximum(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::TimestampStatistics {
    const IDX: usize = 6;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_minimum(v[0].u() as i64); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_minimum() as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_minimum() as u64)] }
            (1, FieldOp::Clear) => { self.clear_minimum(); vec![] }
            (1, FieldOp::Mut) => { self.set_minimum(v[0].u() as i64); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_minimum() as u64)]; self.clear_minimum(); r }
            (2, FieldOp::Set) => { self.set_maximum(v[0].u() as i64); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_maximum() as u64)] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_maximum() as u64)] }
            (2, FieldOp::Clear) => { self.clear_maximum(); vec![] }
            (2, FieldOp::Mut) => { self.set_maximum(v[0].u() as i64); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_maximum() as u64)]; self.clear_maximum(); r }
            (3, FieldOp::Set) => { self.set_minimumUtc(v[0].u() as i64); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_minimumUtc() as u64)] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_minimumUtc() as u64)] }
            (3, FieldOp::Clear) => { self.clear_minimumUtc(); vec![] }
            (3, FieldOp::Mut) => { self.set_minimumUtc(v[0].u() as i64); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_minimumUtc() as u64)]; self.clear_minimumUtc(); r }
            (4, FieldOp::Set) => { self.set_maximumUtc(v[0].u() as i64); vec![] }
            (4, FieldOp::Get) => { vec![PV::U(self.get_maximumUtc() as u64)] }
            (4, FieldOp::Has) => { vec![PV::U(self.has_maximumUtc() as u64)] }
            (4, FieldOp::Clear) => { self.clear_maximumUtc(); vec![] }
            (4, FieldOp::Mut) => { self.set_maximumUtc(v[0].u() as i64); vec![] }
            (4, FieldOp::Take) => { let r = vec![PV::U(self.get_maximumUtc() as u64)]; self.clear_maximumUtc(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::BinaryStatistics {
    const IDX: usize = 7;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_sum(v[0].u() as i64); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_sum() as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_sum() as u64)] }
            (1, FieldOp::Clear) => { self.clear_sum(); vec![] }
            (1, FieldOp::Mut) => { self.set_sum(v[0].u() as i64); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_sum() as u64)]; self.clear_sum(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::ColumnStatistics {
    const IDX: usize = 8;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_numberOfValues(v[0].u()); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_numberOfValues())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_numberOfValues() as u64)] }
            (1, FieldOp::Clear) => { self.clear_numberOfValues(); vec![] }
            (1, FieldOp::Mut) => { self.set_numberOfValues(v[0].u()); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_numberOfValues())]; self.clear_numberOfValues(); r }
            (2, FieldOp::Set) => { self.set_intStatistics(from_dyn::<o::IntegerStatistics>(v[0].m())); vec![] }
            (2, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_intStatistics().clone()))] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_intStatistics() as u64)] }
            (2, FieldOp::Clear) => { self.clear_intStatistics(); vec![] }
            (2, FieldOp::Mut) => { *self.mut_intStatistics() = from_dyn::<o::IntegerStatistics>(v[0].m()); vec![] }
            (2, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_intStatistics().clone()))] }
            (3, FieldOp::Set) => { self.set_doubleStatistics(from_dyn::<o::DoubleStatistics>(v[0].m())); vec![] }
            (3, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_doubleStatistics().clone()))] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_doubleStatistics() as u64)] }
            (3, FieldOp::Clear) => { self.clear_doubleStatistics(); vec![] }
            (3, FieldOp::Mut) => { *self.mut_doubleStatistics() = from_dyn::<o::DoubleStatistics>(v[0].m()); vec![] }
            (3, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_doubleStatistics().clone()))] }
            (4, FieldOp::Set) => { self.set_stringStatistics(from_dyn::<o::StringStatistics>(v[0].m())); vec![] }
            (4, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_stringStatistics().clone()))] }
            (4, FieldOp::Has) => { vec![PV::U(self.has_stringStatistics() as u64)] }
            (4, FieldOp::Clear) => { self.clear_stringStatistics(); vec![] }
            (4, FieldOp::Mut) => { *self.mut_stringStatistics() = from_dyn::<o::StringStatistics>(v[0].m()); vec![] }
            (4, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_stringStatistics().clone()))] }
            (5, FieldOp::Set) => { self.set_bucketStatistics(from_dyn::<o::BucketStatistics>(v[0].m())); vec![] }
            (5, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_bucketStatistics().clone()))] }
            (5, FieldOp::Has) => { vec![PV::U(self.has_bucketStatistics() as u64)] }
            (5, FieldOp::Clear) => { self.clear_bucketStatistics(); vec![] }
            (5, FieldOp::Mut) => { *self.mut_bucketStatistics() = from_dyn::<o::BucketStatistics>(v[0].m()); vec![] }
            (5, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_bucketStatistics().clone()))] }
            (6, FieldOp::Set) => { self.set_decimalStatistics(from_dyn::<o::DecimalStatistics>(v[0].m())); vec![] }
            (6, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_decimalStatistics().clone()))] }
            (6, FieldOp::Has) => { vec![PV::U(self.has_decimalStatistics() as u64)] }
            (6, FieldOp::Clear) => { self.clear_decimalStatistics(); vec![] }
            (6, FieldOp::Mut) => { *self.mut_decimalStatistics() = from_dyn::<o::DecimalStatistics>(v[0].m()); vec![] }
            (6, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_decimalStatistics().clone()))] }
            (7, FieldOp::Set) => { self.set_dateStatistics(from_dyn::<o::DateStatistics>(v[0].m())); vec![] }
            (7, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_dateStatistics().clone()))] }
            (7, FieldOp::Has) => { vec![PV::U(self.has_dateStatistics() as u64)] }
            (7, FieldOp::Clear) => { self.clear_dateStatistics(); vec![] }
            (7, FieldOp::Mut) => { *self.mut_dateStatistics() = from_dyn::<o::DateStatistics>(v[0].m()); vec![] }
            (7, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_dateStatistics().clone()))] }
            (8, FieldOp::Set) => { self.set_binaryStatistics(from_dyn::<o::BinaryStatistics>(v[0].m())); vec![] }
            (8, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_binaryStatistics().clone()))] }
            (8, FieldOp::Has) => { vec![PV::U(self.has_binaryStatistics() as u64)] }
            (8, FieldOp::Clear) => { self.clear_binaryStatistics(); vec![] }
            (8, FieldOp::Mut) => { *self.mut_binaryStatistics() = from_dyn::<o::BinaryStatistics>(v[0].m()); vec![] }
            (8, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_binaryStatistics().clone()))] }
            (9, FieldOp::Set) => { self.set_timestampStatistics(from_dyn::<o::TimestampStatistics>(v[0].m())); vec![] }
            (9, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_timestampStatistics().clone()))] }
            (9, FieldOp::Has) => { vec![PV::U(self.has_timestampStatistics() as u64)] }
            (9, FieldOp::Clear) => { self.clear_timestampStatistics(); vec![] }
            (9, FieldOp::Mut) => { *self.mut_timestampStatistics() = from_dyn::<o::TimestampStatistics>(v[0].m()); vec![] }
            (9, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_timestampStatistics().clone()))] }
            (10, FieldOp::Set) => { self.set_hasNull((v[0].u() != 0)); vec![] }
            (10, FieldOp::Get) => { vec![PV::U(self.get_hasNull() as u64)] }
            (10, FieldOp::Has) => { vec![PV::U(self.has_hasNull() as u64)] }
            (10, FieldOp::Clear) => { self.clear_hasNull(); vec![] }
            (10, FieldOp::Mut) => { self.set_hasNull((v[0].u() != 0)); vec![] }
            (10, FieldOp::Take) => { let r = vec![PV::U(self.get_hasNull() as u64)]; self.clear_hasNull(); r }
            (11, FieldOp::Set) => { self.set_bytesOnDisk(v[0].u()); vec![] }
            (11, FieldOp::Get) => { vec![PV::U(self.get_bytesOnDisk())] }
            (11, FieldOp::Has) => { vec![PV::U(self.has_bytesOnDisk() as u64)] }
            (11, FieldOp::Clear) => { self.clear_bytesOnDisk(); vec![] }
            (11, FieldOp::Mut) => { self.set_bytesOnDisk(v[0].u()); vec![] }
            (11, FieldOp::Take) => { let r = vec![PV::U(self.get_bytesOnDisk())]; self.clear_bytesOnDisk(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::RowIndexEntry {
    const IDX: usize = 9;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_positions(v.iter().map(|x| x.u()).collect::<Vec<_>>()); vec![] }
            (1, FieldOp::Get) => { self.get_positions().iter().map(|x| PV::U((*x))).collect() }
            (1, FieldOp::Has) => { vec![PV::U((!self.get_positions().is_empty()) as u64)] }
            (1, FieldOp::Clear) => { self.clear_positions(); vec![] }
            (1, FieldOp::Mut) => { for x in v { let y = x.u(); self.mut_positions().push(y); } vec![] }
            (1, FieldOp::Take) => { self.take_positions().iter().map(|x| PV::U((*x))).collect() }
            (2, FieldOp::Set) => { self.set_statistics(from_dyn::<o::ColumnStatistics>(v[0].m())); vec![] }
            (2, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_statistics().clone()))] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_statistics() as u64)] }
            (2, FieldOp::Clear) => { self.clear_statistics(); vec![] }
            (2, FieldOp::Mut) => { *self.mut_statistics() = from_dyn::<o::ColumnStatistics>(v[0].m()); vec![] }
            (2, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_statistics().clone()))] }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::RowIndex {
    const IDX: usize = 10;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_entry(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::RowIndexEntry>(x.m())).collect::<Vec<_>>())); vec![] }
            (1, FieldOp::Get) => { self.get_entry().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (1, FieldOp::Has) => { vec![PV::U((!self.get_entry().is_empty()) as u64)] }
            (1, FieldOp::Clear) => { self.clear_entry(); vec![] }
            (1, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::RowIndexEntry>(x.m()); self.mut_entry().push(y); } vec![] }
            (1, FieldOp::Take) => { self.take_entry().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::BloomFilter {
    const IDX: usize = 11;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_numHashFunctions(v[0].u() as u32); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_numHashFunctions() as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_numHashFunctions() as u64)] }
            (1, FieldOp::Clear) => { self.clear_numHashFunctions(); vec![] }
            (1, FieldOp::Mut) => { self.set_numHashFunctions(v[0].u() as u32); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_numHashFunctions() as u64)]; self.clear_numHashFunctions(); r }
            (2, FieldOp::Set) => { self.set_bitset(v.iter().map(|x| x.u()).collect::<Vec<_>>()); vec![] }
            (2, FieldOp::Get) => { self.get_bitset().iter().map(|x| PV::U((*x))).collect() }
            (2, FieldOp::Has) => { vec![PV::U((!self.get_bitset().is_empty()) as u64)] }
            (2, FieldOp::Clear) => { self.clear_bitset(); vec![] }
            (2, FieldOp::Mut) => { for x in v { let y = x.u(); self.mut_bitset().push(y); } vec![] }
            (2, FieldOp::Take) => { self.take_bitset().iter().map(|x| PV::U((*x))).collect() }
            (3, FieldOp::Set) => { self.set_utf8bitset(v[0].b().to_vec()); vec![] }
            (3, FieldOp::Get) => { vec![PV::B(self.get_utf8bitset().to_vec())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_utf8bitset() as u64)] }
            (3, FieldOp::Clear) => { self.clear_utf8bitset(); vec![] }
            (3, FieldOp::Mut) => { *self.mut_utf8bitset() = v[0].b().to_vec(); vec![] }
            (3, FieldOp::Take) => { vec![PV::B(self.take_utf8bitset().to_vec())] }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::BloomFilterIndex {
    const IDX: usize = 12;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_bloomFilter(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::BloomFilter>(x.m())).collect::<Vec<_>>())); vec![] }
            (1, FieldOp::Get) => { self.get_bloomFilter().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (1, FieldOp::Has) => { vec![PV::U((!self.get_bloomFilter().is_empty()) as u64)] }
            (1, FieldOp::Clear) => { self.clear_bloomFilter(); vec![] }
            (1, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::BloomFilter>(x.m()); self.mut_bloomFilter().push(y); } vec![] }
            (1, FieldOp::Take) => { self.take_bloomFilter().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::Stream {
    const IDX: usize = 13;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_kind(o::Stream_Kind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_kind().value() as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_kind() as u64)] }
            (1, FieldOp::Clear) => { self.clear_kind(); vec![] }
            (1, FieldOp::Mut) => { self.set_kind(o::Stream_Kind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_kind().value() as u64)]; self.clear_kind(); r }
            (2, FieldOp::Set) => { self.set_column(v[0].u() as u32); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_column() as u64)] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_column() as u64)] }
            (2, FieldOp::Clear) => { self.clear_column(); vec![] }
            (2, FieldOp::Mut) => { self.set_column(v[0].u() as u32); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_column() as u64)]; self.clear_column(); r }
            (3, FieldOp::Set) => { self.set_length(v[0].u()); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_length())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_length() as u64)] }
            (3, FieldOp::Clear) => { self.clear_length(); vec![] }
            (3, FieldOp::Mut) => { self.set_length(v[0].u()); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_length())]; self.clear_length(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::ColumnEncoding {
    const IDX: usize = 14;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_kind(o::ColumnEncoding_Kind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_kind().value() as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_kind() as u64)] }
            (1, FieldOp::Clear) => { self.clear_kind(); vec![] }
            (1, FieldOp::Mut) => { self.set_kind(o::ColumnEncoding_Kind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_kind().value() as u64)]; self.clear_kind(); r }
            (2, FieldOp::Set) => { self.set_dictionarySize(v[0].u() as u32); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_dictionarySize() as u64)] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_dictionarySize() as u64)] }
            (2, FieldOp::Clear) => { self.clear_dictionarySize(); vec![] }
            (2, FieldOp::Mut) => { self.set_dictionarySize(v[0].u() as u32); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_dictionarySize() as u64)]; self.clear_dictionarySize(); r }
            (3, FieldOp::Set) => { self.set_bloomEncoding(v[0].u() as u32); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_bloomEncoding() as u64)] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_bloomEncoding() as u64)] }
            (3, FieldOp::Clear) => { self.clear_bloomEncoding(); vec![] }
            (3, FieldOp::Mut) => { self.set_bloomEncoding(v[0].u() as u32); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_bloomEncoding() as u64)]; self.clear_bloomEncoding(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::StripeFooter {
    const IDX: usize = 15;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_streams(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::Stream>(x.m())).collect::<Vec<_>>())); vec![] }
            (1, FieldOp::Get) => { self.get_streams().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (1, FieldOp::Has) => { vec![PV::U((!self.get_streams().is_empty()) as u64)] }
            (1, FieldOp::Clear) => { self.clear_streams(); vec![] }
            (1, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::Stream>(x.m()); self.mut_streams().push(y); } vec![] }
            (1, FieldOp::Take) => { self.take_streams().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (2, FieldOp::Set) => { self.set_columns(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::ColumnEncoding>(x.m())).collect::<Vec<_>>())); vec![] }
            (2, FieldOp::Get) => { self.get_columns().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (2, FieldOp::Has) => { vec![PV::U((!self.get_columns().is_empty()) as u64)] }
            (2, FieldOp::Clear) => { self.clear_columns(); vec![] }
            (2, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::ColumnEncoding>(x.m()); self.mut_columns().push(y); } vec![] }
            (2, FieldOp::Take) => { self.take_columns().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (3, FieldOp::Set) => { self.set_writerTimezone(v[0].s().to_string()); vec![] }
            (3, FieldOp::Get) => { vec![PV::S(self.get_writerTimezone().to_string())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_writerTimezone() as u64)] }
            (3, FieldOp::Clear) => { self.clear_writerTimezone(); vec![] }
            (3, FieldOp::Mut) => { *self.mut_writerTimezone() = v[0].s().to_string(); vec![] }
            (3, FieldOp::Take) => { vec![PV::S(self.take_writerTimezone().to_string())] }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::Type {
    const IDX: usize = 16;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_kind(o::Type_Kind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_kind().value() as u64)] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_kind() as u64)] }
            (1, FieldOp::Clear) => { self.clear_kind(); vec![] }
            (1, FieldOp::Mut) => { self.set_kind(o::Type_Kind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_kind().value() as u64)]; self.clear_kind(); r }
            (2, FieldOp::Set) => { self.set_subtypes(v.iter().map(|x| x.u() as u32).collect::<Vec<_>>()); vec![] }
            (2, FieldOp::Get) => { self.get_subtypes().iter().map(|x| PV::U((*x) as u64)).collect() }
            (2, FieldOp::Has) => { vec![PV::U((!self.get_subtypes().is_empty()) as u64)] }
            (2, FieldOp::Clear) => { self.clear_subtypes(); vec![] }
            (2, FieldOp::Mut) => { for x in v { let y = x.u() as u32; self.mut_subtypes().push(y); } vec![] }
            (2, FieldOp::Take) => { self.take_subtypes().iter().map(|x| PV::U((*x) as u64)).collect() }
            (3, FieldOp::Set) => { self.set_fieldNames(protobuf::RepeatedField::from_vec(v.iter().map(|x| x.s().to_string()).collect::<Vec<_>>())); vec![] }
            (3, FieldOp::Get) => { self.get_fieldNames().iter().map(|x| PV::S(x.to_string())).collect() }
            (3, FieldOp::Has) => { vec![PV::U((!self.get_fieldNames().is_empty()) as u64)] }
            (3, FieldOp::Clear) => { self.clear_fieldNames(); vec![] }
            (3, FieldOp::Mut) => { for x in v { let y = x.s().to_string(); self.mut_fieldNames().push(y); } vec![] }
            (3, FieldOp::Take) => { self.take_fieldNames().iter().map(|x| PV::S(x.to_string())).collect() }
            (4, FieldOp::Set) => { self.set_maximumLength(v[0].u() as u32); vec![] }
            (4, FieldOp::Get) => { vec![PV::U(self.get_maximumLength() as u64)] }
            (4, FieldOp::Has) => { vec![PV::U(self.has_maximumLength() as u64)] }
            (4, FieldOp::Clear) => { self.clear_maximumLength(); vec![] }
            (4, FieldOp::Mut) => { self.set_maximumLength(v[0].u() as u32); vec![] }
            (4, FieldOp::Take) => { let r = vec![PV::U(self.get_maximumLength() as u64)]; self.clear_maximumLength(); r }
            (5, FieldOp::Set) => { self.set_precision(v[0].u() as u32); vec![] }
            (5, FieldOp::Get) => { vec![PV::U(self.get_precision() as u64)] }
            (5, FieldOp::Has) => { vec![PV::U(self.has_precision() as u64)] }
            (5, FieldOp::Clear) => { self.clear_precision(); vec![] }
            (5, FieldOp::Mut) => { self.set_precision(v[0].u() as u32); vec![] }
            (5, FieldOp::Take) => { let r = vec![PV::U(self.get_precision() as u64)]; self.clear_precision(); r }
            (6, FieldOp::Set) => { self.set_scale(v[0].u() as u32); vec![] }
            (6, FieldOp::Get) => { vec![PV::U(self.get_scale() as u64)] }
            (6, FieldOp::Has) => { vec![PV::U(self.has_scale() as u64)] }
            (6, FieldOp::Clear) => { self.clear_scale(); vec![] }
            (6, FieldOp::Mut) => { self.set_scale(v[0].u() as u32); vec![] }
            (6, FieldOp::Take) => { let r = vec![PV::U(self.get_scale() as u64)]; self.clear_scale(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::StripeInformation {
    const IDX: usize = 17;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_offset(v[0].u()); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_offset())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_offset() as u64)] }
            (1, FieldOp::Clear) => { self.clear_offset(); vec![] }
            (1, FieldOp::Mut) => { self.set_offset(v[0].u()); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_offset())]; self.clear_offset(); r }
            (2, FieldOp::Set) => { self.set_indexLength(v[0].u()); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_indexLength())] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_indexLength() as u64)] }
            (2, FieldOp::Clear) => { self.clear_indexLength(); vec![] }
            (2, FieldOp::Mut) => { self.set_indexLength(v[0].u()); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_indexLength())]; self.clear_indexLength(); r }
            (3, FieldOp::Set) => { self.set_dataLength(v[0].u()); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_dataLength())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_dataLength() as u64)] }
            (3, FieldOp::Clear) => { self.clear_dataLength(); vec![] }
            (3, FieldOp::Mut) => { self.set_dataLength(v[0].u()); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_dataLength())]; self.clear_dataLength(); r }
            (4, FieldOp::Set) => { self.set_footerLength(v[0].u()); vec![] }
            (4, FieldOp::Get) => { vec![PV::U(self.get_footerLength())] }
            (4, FieldOp::Has) => { vec![PV::U(self.has_footerLength() as u64)] }
            (4, FieldOp::Clear) => { self.clear_footerLength(); vec![] }
            (4, FieldOp::Mut) => { self.set_footerLength(v[0].u()); vec![] }
            (4, FieldOp::Take) => { let r = vec![PV::U(self.get_footerLength())]; self.clear_footerLength(); r }
            (5, FieldOp::Set) => { self.set_numberOfRows(v[0].u()); vec![] }
            (5, FieldOp::Get) => { vec![PV::U(self.get_numberOfRows())] }
            (5, FieldOp::Has) => { vec![PV::U(self.has_numberOfRows() as u64)] }
            (5, FieldOp::Clear) => { self.clear_numberOfRows(); vec![] }
            (5, FieldOp::Mut) => { self.set_numberOfRows(v[0].u()); vec![] }
            (5, FieldOp::Take) => { let r = vec![PV::U(self.get_numberOfRows())]; self.clear_numberOfRows(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::UserMetadataItem {
    const IDX: usize = 18;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_name(v[0].s().to_string()); vec![] }
            (1, FieldOp::Get) => { vec![PV::S(self.get_name().to_string())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_name() as u64)] }
            (1, FieldOp::Clear) => { self.clear_name(); vec![] }
            (1, FieldOp::Mut) => { *self.mut_name() = v[0].s().to_string(); vec![] }
            (1, FieldOp::Take) => { vec![PV::S(self.take_name().to_string())] }
            (2, FieldOp::Set) => { self.set_value(v[0].b().to_vec()); vec![] }
            (2, FieldOp::Get) => { vec![PV::B(self.get_value().to_vec())] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_value() as u64)] }
            (2, FieldOp::Clear) => { self.clear_value(); vec![] }
            (2, FieldOp::Mut) => { *self.mut_value() = v[0].b().to_vec(); vec![] }
            (2, FieldOp::Take) => { vec![PV::B(self.take_value().to_vec())] }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::StripeStatistics {
    const IDX: usize = 19;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_colStats(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::ColumnStatistics>(x.m())).collect::<Vec<_>>())); vec![] }
            (1, FieldOp::Get) => { self.get_colStats().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (1, FieldOp::Has) => { vec![PV::U((!self.get_colStats().is_empty()) as u64)] }
            (1, FieldOp::Clear) => { self.clear_colStats(); vec![] }
            (1, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::ColumnStatistics>(x.m()); self.mut_colStats().push(y); } vec![] }
            (1, FieldOp::Take) => { self.take_colStats().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::Metadata {
    const IDX: usize = 20;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_stripeStats(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::StripeStatistics>(x.m())).collect::<Vec<_>>())); vec![] }
            (1, FieldOp::Get) => { self.get_stripeStats().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (1, FieldOp::Has) => { vec![PV::U((!self.get_stripeStats().is_empty()) as u64)] }
            (1, FieldOp::Clear) => { self.clear_stripeStats(); vec![] }
            (1, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::StripeStatistics>(x.m()); self.mut_stripeStats().push(y); } vec![] }
            (1, FieldOp::Take) => { self.take_stripeStats().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::Footer {
    const IDX: usize = 21;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_headerLength(v[0].u()); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_headerLength())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_headerLength() as u64)] }
            (1, FieldOp::Clear) => { self.clear_headerLength(); vec![] }
            (1, FieldOp::Mut) => { self.set_headerLength(v[0].u()); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_headerLength())]; self.clear_headerLength(); r }
            (2, FieldOp::Set) => { self.set_contentLength(v[0].u()); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_contentLength())] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_contentLength() as u64)] }
            (2, FieldOp::Clear) => { self.clear_contentLength(); vec![] }
            (2, FieldOp::Mut) => { self.set_contentLength(v[0].u()); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_contentLength())]; self.clear_contentLength(); r }
            (3, FieldOp::Set) => { self.set_stripes(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::StripeInformation>(x.m())).collect::<Vec<_>>())); vec![] }
            (3, FieldOp::Get) => { self.get_stripes().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (3, FieldOp::Has) => { vec![PV::U((!self.get_stripes().is_empty()) as u64)] }
            (3, FieldOp::Clear) => { self.clear_stripes(); vec![] }
            (3, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::StripeInformation>(x.m()); self.mut_stripes().push(y); } vec![] }
            (3, FieldOp::Take) => { self.take_stripes().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (4, FieldOp::Set) => { self.set_types(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::Type>(x.m())).collect::<Vec<_>>())); vec![] }
            (4, FieldOp::Get) => { self.get_types().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (4, FieldOp::Has) => { vec![PV::U((!self.get_types().is_empty()) as u64)] }
            (4, FieldOp::Clear) => { self.clear_types(); vec![] }
            (4, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::Type>(x.m()); self.mut_types().push(y); } vec![] }
            (4, FieldOp::Take) => { self.take_types().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (5, FieldOp::Set) => { self.set_metadata(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::UserMetadataItem>(x.m())).collect::<Vec<_>>())); vec![] }
            (5, FieldOp::Get) => { self.get_metadata().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (5, FieldOp::Has) => { vec![PV::U((!self.get_metadata().is_empty()) as u64)] }
            (5, FieldOp::Clear) => { self.clear_metadata(); vec![] }
            (5, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::UserMetadataItem>(x.m()); self.mut_metadata().push(y); } vec![] }
            (5, FieldOp::Take) => { self.take_metadata().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (6, FieldOp::Set) => { self.set_numberOfRows(v[0].u()); vec![] }
            (6, FieldOp::Get) => { vec![PV::U(self.get_numberOfRows())] }
            (6, FieldOp::Has) => { vec![PV::U(self.has_numberOfRows() as u64)] }
            (6, FieldOp::Clear) => { self.clear_numberOfRows(); vec![] }
            (6, FieldOp::Mut) => { self.set_numberOfRows(v[0].u()); vec![] }
            (6, FieldOp::Take) => { let r = vec![PV::U(self.get_numberOfRows())]; self.clear_numberOfRows(); r }
            (7, FieldOp::Set) => { self.set_statistics(protobuf::RepeatedField::from_vec(v.iter().map(|x| from_dyn::<o::ColumnStatistics>(x.m())).collect::<Vec<_>>())); vec![] }
            (7, FieldOp::Get) => { self.get_statistics().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (7, FieldOp::Has) => { vec![PV::U((!self.get_statistics().is_empty()) as u64)] }
            (7, FieldOp::Clear) => { self.clear_statistics(); vec![] }
            (7, FieldOp::Mut) => { for x in v { let y = from_dyn::<o::ColumnStatistics>(x.m()); self.mut_statistics().push(y); } vec![] }
            (7, FieldOp::Take) => { self.take_statistics().iter().map(|x| PV::M(to_dyn(&mut x.clone()))).collect() }
            (8, FieldOp::Set) => { self.set_rowIndexStride(v[0].u() as u32); vec![] }
            (8, FieldOp::Get) => { vec![PV::U(self.get_rowIndexStride() as u64)] }
            (8, FieldOp::Has) => { vec![PV::U(self.has_rowIndexStride() as u64)] }
            (8, FieldOp::Clear) => { self.clear_rowIndexStride(); vec![] }
            (8, FieldOp::Mut) => { self.set_rowIndexStride(v[0].u() as u32); vec![] }
            (8, FieldOp::Take) => { let r = vec![PV::U(self.get_rowIndexStride() as u64)]; self.clear_rowIndexStride(); r }
            (9, FieldOp::Set) => { self.set_writer(v[0].u() as u32); vec![] }
            (9, FieldOp::Get) => { vec![PV::U(self.get_writer() as u64)] }
            (9, FieldOp::Has) => { vec![PV::U(self.has_writer() as u64)] }
            (9, FieldOp::Clear) => { self.clear_writer(); vec![] }
            (9, FieldOp::Mut) => { self.set_writer(v[0].u() as u32); vec![] }
            (9, FieldOp::Take) => { let r = vec![PV::U(self.get_writer() as u64)]; self.clear_writer(); r }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::PostScript {
    const IDX: usize = 22;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_footerLength(v[0].u()); vec![] }
            (1, FieldOp::Get) => { vec![PV::U(self.get_footerLength())] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_footerLength() as u64)] }
            (1, FieldOp::Clear) => { self.clear_footerLength(); vec![] }
            (1, FieldOp::Mut) => { self.set_footerLength(v[0].u()); vec![] }
            (1, FieldOp::Take) => { let r = vec![PV::U(self.get_footerLength())]; self.clear_footerLength(); r }
            (2, FieldOp::Set) => { self.set_compression(o::CompressionKind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (2, FieldOp::Get) => { vec![PV::U(self.get_compression().value() as u64)] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_compression() as u64)] }
            (2, FieldOp::Clear) => { self.clear_compression(); vec![] }
            (2, FieldOp::Mut) => { self.set_compression(o::CompressionKind::from_i32(v[0].u() as i32).unwrap()); vec![] }
            (2, FieldOp::Take) => { let r = vec![PV::U(self.get_compression().value() as u64)]; self.clear_compression(); r }
            (3, FieldOp::Set) => { self.set_compressionBlockSize(v[0].u()); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_compressionBlockSize())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_compressionBlockSize() as u64)] }
            (3, FieldOp::Clear) => { self.clear_compressionBlockSize(); vec![] }
            (3, FieldOp::Mut) => { self.set_compressionBlockSize(v[0].u()); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_compressionBlockSize())]; self.clear_compressionBlockSize(); r }
            (4, FieldOp::Set) => { self.set_version(v.iter().map(|x| x.u() as u32).collect::<Vec<_>>()); vec![] }
            (4, FieldOp::Get) => { self.get_version().iter().map(|x| PV::U((*x) as u64)).collect() }
            (4, FieldOp::Has) => { vec![PV::U((!self.get_version().is_empty()) as u64)] }
            (4, FieldOp::Clear) => { self.clear_version(); vec![] }
            (4, FieldOp::Mut) => { for x in v { let y = x.u() as u32; self.mut_version().push(y); } vec![] }
            (4, FieldOp::Take) => { self.take_version().iter().map(|x| PV::U((*x) as u64)).collect() }
            (5, FieldOp::Set) => { self.set_metadataLength(v[0].u()); vec![] }
            (5, FieldOp::Get) => { vec![PV::U(self.get_metadataLength())] }
            (5, FieldOp::Has) => { vec![PV::U(self.has_metadataLength() as u64)] }
            (5, FieldOp::Clear) => { self.clear_metadataLength(); vec![] }
            (5, FieldOp::Mut) => { self.set_metadataLength(v[0].u()); vec![] }
            (5, FieldOp::Take) => { let r = vec![PV::U(self.get_metadataLength())]; self.clear_metadataLength(); r }
            (6, FieldOp::Set) => { self.set_writerVersion(v[0].u() as u32); vec![] }
            (6, FieldOp::Get) => { vec![PV::U(self.get_writerVersion() as u64)] }
            (6, FieldOp::Has) => { vec![PV::U(self.has_writerVersion() as u64)] }
            (6, FieldOp::Clear) => { self.clear_writerVersion(); vec![] }
            (6, FieldOp::Mut) => { self.set_writerVersion(v[0].u() as u32); vec![] }
            (6, FieldOp::Take) => { let r = vec![PV::U(self.get_writerVersion() as u64)]; self.clear_writerVersion(); r }
            (8000, FieldOp::Set) => { self.set_magic(v[0].s().to_string()); vec![] }
            (8000, FieldOp::Get) => { vec![PV::S(self.get_magic().to_string())] }
            (8000, FieldOp::Has) => { vec![PV::U(self.has_magic() as u64)] }
            (8000, FieldOp::Clear) => { self.clear_magic(); vec![] }
            (8000, FieldOp::Mut) => { *self.mut_magic() = v[0].s().to_string(); vec![] }
            (8000, FieldOp::Take) => { vec![PV::S(self.take_magic().to_string())] }
            _ => unreachable!(),
        }
    }
}

impl Typed for o::FileTail {
    const IDX: usize = 23;
    fn apply(&mut self, num: u32, op: FieldOp, v: &[PV]) -> Vec<PV> {
        match (num, op) {
            (1, FieldOp::Set) => { self.set_postscript(from_dyn::<o::PostScript>(v[0].m())); vec![] }
            (1, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_postscript().clone()))] }
            (1, FieldOp::Has) => { vec![PV::U(self.has_postscript() as u64)] }
            (1, FieldOp::Clear) => { self.clear_postscript(); vec![] }
            (1, FieldOp::Mut) => { *self.mut_postscript() = from_dyn::<o::PostScript>(v[0].m()); vec![] }
            (1, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_postscript().clone()))] }
            (2, FieldOp::Set) => { self.set_footer(from_dyn::<o::Footer>(v[0].m())); vec![] }
            (2, FieldOp::Get) => { vec![PV::M(to_dyn(&mut self.get_footer().clone()))] }
            (2, FieldOp::Has) => { vec![PV::U(self.has_footer() as u64)] }
            (2, FieldOp::Clear) => { self.clear_footer(); vec![] }
            (2, FieldOp::Mut) => { *self.mut_footer() = from_dyn::<o::Footer>(v[0].m()); vec![] }
            (2, FieldOp::Take) => { vec![PV::M(to_dyn(&mut self.take_footer().clone()))] }
            (3, FieldOp::Set) => { self.set_fileLength(v[0].u()); vec![] }
            (3, FieldOp::Get) => { vec![PV::U(self.get_fileLength())] }
            (3, FieldOp::Has) => { vec![PV::U(self.has_fileLength() as u64)] }
            (3, FieldOp::Clear) => { self.clear_fileLength(); vec![] }
            (3, FieldOp::Mut) => { self.set_fileLength(v[0].u()); vec![] }
            (3, FieldOp::Take) => { let r = vec![PV::U(self.get_fileLength())]; self.clear_fileLength(); r }
            (4, FieldOp::Set) => { self.set_postscriptLength(v[0].u()); vec![] }
            (4, FieldOp::Get) => { vec![PV::U(self.get_postscriptLength())] }
            (4, FieldOp::Has) => { vec![PV::U(self.has_postscriptLength() as u64)] }
            (4, FieldOp::Clear) => { self.clear_postscriptLength(); vec![] }
            (4, FieldOp::Mut) => { self.set_postscriptLength(v[0].u()); vec![] }
            (4, FieldOp::Take) => { let r = vec![PV::U(self.get_postscriptLength())]; self.clear_postscriptLength(); r }
            _ => unreachable!(),
        }
    }
}
