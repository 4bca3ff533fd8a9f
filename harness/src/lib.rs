pub mod alloc;
pub mod clock;
pub mod codec;
pub mod drive;
pub mod engine;
pub mod gen;
pub mod index;
pub mod model;
pub mod p_abandon;
pub mod p_build;
pub mod p_file;
pub mod p_hist;
pub mod p_mem;
pub mod pb;
pub mod p_proto;
pub mod p_reflect;
pub mod p_refuse;
pub mod p_scale;
pub mod p_size;
pub mod proto_table;
pub mod props;
pub mod reader;
pub mod rle;
pub mod stats;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;
