//! The table of properties.

use crate::engine::Check;
use crate::p_scale::FIXED;
use crate::{p_abandon, p_build, p_file, p_hist, p_mem, p_proto, p_reflect, p_refuse, p_size};

pub struct Prop {
    pub id: &'static str,
    pub check: Check,
    /// Cases of the quick and the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// Choice lists that are run before the random cases, and how many of them the quick tier runs.
    pub fixed: &'static [&'static [u64]],
    pub fixed_quick: usize,
    /// Whether the second part of the cases runs in the plain build.
    pub both: bool,
    pub rule: &'static str,
    pub level: &'static str,
}

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        check: p_file::c01,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[&[FIXED - 2], &[FIXED - 3]],
        fixed_quick: 2,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; the file is decoded by an independent reader written from the ORC specification and compared row by row. Non-trivial: at least one non-null row; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C02",
        check: p_file::c02,
        quick: 240_000,
        thorough: 15_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A SHORT/INT/LONG/DATE column (bare, in a struct or in a list) of up to 6000 (rarely 90000) values made of constant, arithmetic, alternating, paired and random stretches whose lengths cluster at 3, 128, 130 and 256 and whose steps cluster at -129..128 and wrap; decoded independently. Non-trivial: at least one non-null row; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C03",
        check: p_file::c03,
        quick: 208_000,
        thorough: 13_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A TIMESTAMP column with nanoseconds drawn by significant digits and trailing zeros and seconds over the whole allowed range; decoded independently, and the file of the UNIX-epoch entry point compared byte for byte. Non-trivial: at least one non-null row; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C04",
        check: p_file::c04,
        quick: 208_000,
        thorough: 13_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A DECIMAL column of random precision and scale, values over the declared or the full 128-bit range; decoded independently, and the file written through the 64-bit entry point (where values fit) compared byte for byte. Non-trivial: at least one non-null row; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C05",
        check: p_file::c05,
        quick: 160_000,
        thorough: 10_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A BOOLEAN/FLOAT/DOUBLE/STRING/CHAR/VARCHAR/BINARY column; value lengths cluster around the compression block size and its multiples; float bit patterns include NaN payloads; decoded independently and compared bit for bit. Non-trivial: at least one non-null row; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C06",
        check: p_file::c06,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; for every stripe and column the PRESENT stream must exist iff the stripe's values of the column have a null and must mark exactly those. Non-trivial: some value at some level is null.",
        level: "exploration",
    },
    Prop {
        id: "C07",
        check: p_file::c07,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[&[FIXED], &[FIXED - 2], &[FIXED - 3]],
        fixed_quick: 3,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; every offset, length, count and stream list in the file is compared with the bytes present and the rows committed. Non-trivial: at least one non-null row.",
        level: "exploration",
    },
    Prop {
        id: "C08",
        check: p_file::c08,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[&[FIXED - 3]],
        fixed_quick: 1,
        both: true,
        rule: "A schema of depth <= 7 with up to 120 columns, unions up to 256 variants, arbitrary names and parameters; the footer's type list is rebuilt into a schema and compared, and the numbers of statistics, encodings and row indexes are compared with it. Non-trivial: at least three columns.",
        level: "exploration",
    },
    Prop {
        id: "C09",
        check: p_file::c09,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[&[FIXED - 2], &[FIXED - 3], &[FIXED - 5], &[FIXED], &[FIXED - 1]],
        fixed_quick: 3,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches (strides at run-length limits preferred); the statistics of every stripe and of the file are recomputed from the values and compared. Non-trivial: at least one non-null row.",
        level: "exploration",
    },
    Prop {
        id: "C10",
        check: p_file::c10,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[&[FIXED - 4], &[FIXED - 2], &[FIXED - 3]],
        fixed_quick: 3,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches (strides at run-length limits preferred); entry count and statistics of every row group recomputed from the values of its rows. Non-trivial: more rows than the stride (several row groups).",
        level: "exploration",
    },
    Prop {
        id: "C11",
        check: p_file::c11,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[&[FIXED - 4]],
        fixed_quick: 1,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches (strides at run-length limits preferred); an independent reader seeks every stream of every column to the recorded positions of every row group and must find the values of the row group. Non-trivial: more rows than the stride (several row groups).",
        level: "exploration",
    },
    Prop {
        id: "C12",
        check: p_file::c12,
        quick: 144_000,
        thorough: 9_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; the chunk table of every stream, index, footer and metadata section is checked against the declared block size, and the rows decoded; some cases have values larger than the largest chunk. Non-trivial: a stream of several chunks, or an uncompressed file with rows.",
        level: "exploration",
    },
    Prop {
        id: "C13",
        check: p_file::c13,
        quick: 130_000,
        thorough: 10_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; written with the codec and without; uncompressed stream contents, stream lists, types, statistics and counts compared (stripe by stripe where the boundaries agree). Non-trivial: rows, a codec, and the same stripe boundaries.",
        level: "exploration",
    },
    Prop {
        id: "C14",
        check: p_file::c14,
        quick: 160_000,
        thorough: 10_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; the same rows divided in other ways, files compared byte for byte without stripe flushes, and stripe contents against whole batches with them. Non-trivial: rows, and a division into another number of batches.",
        level: "exploration",
    },
    Prop {
        id: "C15",
        check: p_file::c15,
        quick: 120_000,
        thorough: 10_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; the per-column call sequences interleaved by rows, by columns in random order, children first, value by value and in bursts, through all accessors, files compared byte for byte. Non-trivial: rows, and at least three columns.",
        level: "exploration",
    },
    Prop {
        id: "C16",
        check: p_hist::c16,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A history whose counts match must be accepted; then calls are left out, added, or changed (lengths, tags, nulls, row counts, also by amounts near 2^32 and 2^64, and compensating changes in two places) in one batch and a model counts values per column: write_batch must panic iff a count differs. Non-trivial: at least one mutation that breaks a count. Sub-evaluations: mutated histories.",
        level: "exploration",
    },
    Prop {
        id: "C17",
        check: p_hist::c17,
        quick: 112_000,
        thorough: 7_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; written to sinks that accept a random part of each buffer and return Interrupted at random, directly and behind a BufWriter; bytes compared with those of a well-behaved sink, and the sink must be flushed. Non-trivial: the sink really was short or interrupted. Sub-evaluations: sinks.",
        level: "exploration",
    },
    Prop {
        id: "C18",
        check: p_hist::c18,
        quick: 18_000,
        thorough: 1_400_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A small history (0..6 batches, usually several stripes) is repeated with a failure at every single sink call in turn (sampled above a limit): error kinds, zero-length accepts, permanent and transient, caller stopping or carrying on, directly and behind a BufWriter. Every fault must be reported by the call in progress without a panic, and success of finish requires a complete valid file with all rows. Non-trivial: the history has rows. Sub-evaluations: fault points.",
        level: "fault_enumeration",
    },
    Prop {
        id: "C19",
        check: p_hist::c19,
        quick: 58_000,
        thorough: 4_500_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches; the history is repeated, repeated with a cloned and reused configuration, with setters in other orders and overwritten, interleaved with another writer, and in threads; all files compared byte for byte. Non-trivial: at least one non-null row. Sub-evaluations: repetitions.",
        level: "exploration",
    },
    Prop {
        id: "C20",
        check: p_hist::c20,
        quick: 352_000,
        thorough: 22_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "One of: a union of a number of variants around 0, 1, 255..257; a tag for a union of n variants; a compression block size; a zstd level (values inside, at and outside the limits, up to the integer limits); every unwrap_* on every column of a schema. Inside: accepted, and the file declares it and reads back. Outside: panic, and no trace. Non-trivial: every case; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C21",
        check: p_hist::c21,
        quick: 208_000,
        thorough: 13_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches (0..10 batches, small stripe sizes); the tree is walked in all accessors after random rows and after every batch, must be empty after a flush, and every stripe must hold its rows only and equal, byte for byte, what the same rows give alone. Non-trivial: a stripe was closed between batches. Sub-evaluations: tree walks.",
        level: "exploration",
    },
    Prop {
        id: "C22",
        check: p_proto::c22,
        quick: 1_440_000,
        thorough: 45_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "One of: a random message of one of the 24 types (any field subset, packed or not, unknown fields, any order) encoded by an independent encoder, parsed, read through the accessors, written back and decoded independently; a random sequence of set/clear/take/mut calls against a model; arbitrary, mutated or cut bytes, parsed or rejected as an independent decoder says, never a panic; messages written to slices and sinks with too little room, and read from slow and failing sources. Non-trivial: the message has a field, or the byte string is not empty.",
        level: "exploration",
    },
    Prop {
        id: "C23",
        check: p_size::c23,
        quick: 160_000,
        thorough: 10_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches, or (one in three) a single run-heavy column of up to 12000 values; for every stream the encoded length is bounded from its decoded values: literals plus a control byte per group, runs of three or more at a few bytes per 130 values, raw streams exactly, compressed streams 3 bytes per block. Non-trivial: at least one non-null row.",
        level: "exploration",
    },
    Prop {
        id: "C24",
        check: p_hist::c24,
        quick: 192_000,
        thorough: 12_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema (depth <= 4, <= 12 columns, any root), codec/level/block size, stride, stripe size and a division of random run-structured rows into 0..7 batches (0..12 batches, stripe sizes at and around real estimates); after every write_batch the sink must have grown iff the estimate exceeded the limit, and the estimate is compared with the stream bytes of the finished stripe. Non-trivial: the history has both a batch that closed a stripe and one that did not.",
        level: "exploration",
    },
    Prop {
        id: "C25",
        check: p_mem::c25,
        quick: 64_000,
        thorough: 1_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A case draws a schema of at most 5 columns, codec and a block size up to 2048, stride, stripe size and up to 3 batches, which are then committed again and again (up to 400 cycles, 60000 values) into a sink that keeps nothing; a counting allocator gives the bytes held after every write_batch, which must stay below a fixed allowance per column, 8 times the estimate of the open stripe, its row index entries and a summary per closed stripe; after finish or drop everything is released. Non-trivial: two or more stripes were closed and the output alone exceeds everything that may be held; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C26",
        check: p_reflect::c26,
        quick: 600_000,
        thorough: 20_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A random message of one of the 24 types (any field subset and values, unknown fields) is built through setters and looked at through its descriptor (fields, presence, lengths, values, nested messages), as a trait object, in its text forms (parsed by an independent parser) and through ==, against clones and messages that differ in one or two places; the embedded file descriptor and the enums are compared with the published schema. Non-trivial: the message has a field; distinct by choice sequence.",
        level: "exploration",
    },
    Prop {
        id: "C27",
        check: p_abandon::c27,
        quick: 70_000,
        thorough: 8_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A random history is run once to the end, noting what the sink holds after every call, then abandoned at random points (dropped, dropped with values pending, after a refused batch, by a panic of the user, after a sink error); the bytes must be whole stripes of the committed rows and the beginning of the finished file, which no abandoned file passes for. Non-trivial: a stripe is delivered before finish.",
        level: "exploration",
    },
    Prop {
        id: "C28",
        check: p_build::c28,
        quick: 160_000,
        thorough: 8_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: false,
        rule: "A random program of calls (a random history, in which each batch may have a wrong number of values or rows; union tags, child indices, column types, block sizes, levels, variant counts inside and outside the limits; huge lengths) is executed in this process, built with overflow checks and debug assertions, and in a helper process built without; the traces (accepted, refused, failed; estimates and sink lengths after each batch; file bytes) must be equal. Non-trivial: at least one non-null row or a refused call.",
        level: "exploration",
    },
    Prop {
        id: "C29",
        check: p_refuse::c29,
        quick: 110_000,
        thorough: 8_000_000,
        fixed: &[],
        fixed_quick: 0,
        both: true,
        rule: "A random history is run as it is, and again with refused calls put in, whose panics are caught: tags, variants and fields that do not exist, columns asked for the wrong type, and write_batch with counts that do not match what was written so far (values missing in some columns, wrong row counts). Each must be refused, change neither the estimate nor what is delivered, and the finished files must be identical. Non-trivial: something was refused.",
        level: "exploration",
    },
];

pub fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
