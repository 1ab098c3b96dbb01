use crate::util::eq_bytes;
use crate::{harnesses, sx};
use parquet2::bloom_filter::{hash_byte, hash_native, insert, is_in_set, read};
use parquet2::metadata::{ColumnChunkMetaData, ColumnDescriptor, Descriptor};
use parquet2::schema::types::{ParquetType, PhysicalType};
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use parquet_format_safe::*;
use std::io::Cursor;

// ---- reference: the split-block filter of the format
const SALT: [u32; 8] = [0x47b6137b, 0x44974d91, 0x8824ad5b, 0xa2b7289d, 0x705495c7, 0x2df1424b, 0x9efc4947, 0x5c6bfb31];
fn block(hash: u64, blocks: u64) -> usize { (((hash >> 32) as u128 * blocks as u128) >> 32) as usize }
/// whether byte `i` of the filter has to have bits set for the hash, and which
fn bits(hash: u64, blocks: usize, i: usize) -> u8 {
    if i >= blocks * 32 { return 0; }
    let word = i % 32 / 4;
    let bit = (hash as u32).wrapping_mul(SALT[word]) >> 27;
    let m = (1u32 << bit).to_le_bytes()[i % 4];
    if i / 32 == block(hash, blocks as u64) { m } else { 0 }
}
fn member(set: &[u8], hash: u64) -> bool {
    let n = set.len() / 32;
    let mut ok = true;
    for i in 0..n * 32 { let m = bits(hash, n, i); ok &= set[i] & m == m; }
    ok
}

// ---- reference: XXH64 with seed 0
const P1: u64 = 0x9E3779B185EBCA87;
const P2: u64 = 0xC2B2AE3D27D4EB4F;
const P3: u64 = 0x165667B19E3779F9;
const P4: u64 = 0x85EBCA77C2B2AE63;
const P5: u64 = 0x27D4EB2F165667C5;
fn round(acc: u64, lane: u64) -> u64 { acc.wrapping_add(lane.wrapping_mul(P2)).rotate_left(31).wrapping_mul(P1) }
fn lane(b: &[u8]) -> u64 { let mut v = 0; for k in 0..8 { v |= (b[k] as u64) << (8 * k); } v }
fn xxh(b: &[u8]) -> u64 {
    let mut i = 0;
    let mut h;
    if b.len() >= 32 {
        let mut a = [P1.wrapping_add(P2), P2, 0, 0u64.wrapping_sub(P1)];
        while i + 32 <= b.len() {
            for k in 0..4 { a[k] = round(a[k], lane(&b[i + 8 * k..])); }
            i += 32;
        }
        h = a[0].rotate_left(1).wrapping_add(a[1].rotate_left(7)).wrapping_add(a[2].rotate_left(12)).wrapping_add(a[3].rotate_left(18));
        for k in 0..4 { h = (h ^ round(0, a[k])).wrapping_mul(P1).wrapping_add(P4); }
    } else { h = P5; }
    h = h.wrapping_add(b.len() as u64);
    while i + 8 <= b.len() {
        h = (h ^ round(0, lane(&b[i..]))).rotate_left(27).wrapping_mul(P1).wrapping_add(P4);
        i += 8;
    }
    if i + 4 <= b.len() {
        let v = b[i] as u64 | (b[i + 1] as u64) << 8 | (b[i + 2] as u64) << 16 | (b[i + 3] as u64) << 24;
        h = (h ^ v.wrapping_mul(P1)).rotate_left(23).wrapping_mul(P2).wrapping_add(P3);
        i += 4;
    }
    while i < b.len() {
        h = (h ^ (b[i] as u64).wrapping_mul(P5)).rotate_left(11).wrapping_mul(P1);
        i += 1;
    }
    h ^= h >> 33;
    h = h.wrapping_mul(P2);
    h ^= h >> 29;
    h = h.wrapping_mul(P3);
    h ^ h >> 32
}

fn column(offset: Option<i64>) -> ColumnChunkMetaData {
    let meta = ColumnMetaData { type_: Type(1), encodings: vec![], path_in_schema: vec!["a".to_string()], codec: CompressionCodec(0), num_values: 1,
        total_uncompressed_size: 1, total_compressed_size: 1, key_value_metadata: None, data_page_offset: 4, index_page_offset: None,
        dictionary_page_offset: None, statistics: None, encoding_stats: None, bloom_filter_offset: offset };
    let chunk = ColumnChunk { file_path: None, file_offset: 0, meta_data: Some(meta), offset_index_offset: None, offset_index_length: None,
        column_index_offset: None, column_index_length: None, crypto_metadata: None, encrypted_column_metadata: None };
    let ty = ParquetType::from_physical("a".to_string(), PhysicalType::Int32);
    let p = if let ParquetType::PrimitiveType(p) = &ty { p.clone() } else { return unreachable!() };
    let d = ColumnDescriptor::new(Descriptor { primitive_type: p, max_def_level: 0, max_rep_level: 0 }, vec!["a".to_string()], ty);
    ColumnChunkMetaData::new(chunk, d)
}
fn header(n: i32) -> Vec<u8> {
    let h = BloomFilterHeader { num_bytes: n, algorithm: BloomFilterAlgorithm::BLOCK(SplitBlockAlgorithm {}), hash: BloomFilterHash::XXHASH(XxHash {}), compression: BloomFilterCompression::UNCOMPRESSED(Uncompressed {}) };
    let mut b = vec![];
    h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut b)).unwrap();
    b
}

harnesses! {
    // [blocks, bytes more, block]: one insertion into any filter sets the bits of the format and nothing else
    fn h_insert() {
        let n = sx::param(0);
        let before = sx::bytes(n * 32 + sx::param(1));
        let hash = sx::u64();
        sx::assume(block(hash, n as u64) == sx::param(2));
        let mut after = before.clone();
        insert(&mut after, hash);
        sx::check(after.len() == before.len(), "length");
        let mut ok = true;
        for i in 0..before.len() { ok &= after[i] == before[i] | bits(hash, n, i); }
        sx::check(ok, "bits set by an insertion");
        sx::check(is_in_set(&after, hash), "inserted value is in the set");
        sx::observe_bytes(&after);
        sx::reach("inserted");
    }
    // [blocks, bytes more, word, block, low]: membership is that of the format: for any hash, where one word of the filter is
    // arbitrary and the others are full; (word = 8) for hashes of one low half, where the whole filter is
    fn h_member() {
        let mut set = sx::bytes(sx::param(0) * 32 + sx::param(1));
        let mut hash = sx::u64();
        if sx::param(2) < 8 {
            for i in 0..set.len() { if i % 32 / 4 != sx::param(2) { set[i] = 0xff; } }
        } else { hash = hash >> 32 << 32 | (sx::param(4) as u64 * 0x9E3779B9 & 0xffffffff); }
        sx::assume(block(hash, sx::param(0) as u64) == sx::param(3));
        let r = is_in_set(&set, hash);
        sx::check(r == member(&set, hash), "membership");
        sx::observe(r as u64);
        if r { sx::reach("in"); } else { sx::reach("out"); }
    }
    // [blocks, values, block of each]: every value of a sequence stays in the set
    fn h_sequence() {
        let mut set = vec![0u8; sx::param(0) * 32];
        let h: Vec<u64> = (0..sx::param(1)).map(|i| { let h = sx::u64(); sx::assume(block(h, sx::param(0) as u64) == sx::param(2 + i as u32)); h }).collect();
        for x in &h { insert(&mut set, *x); }
        for x in &h { sx::check(is_in_set(&set, *x), "every inserted value is in the set"); }
        let mut ok = true;
        for i in 0..set.len() { let mut m = 0; for x in &h { m |= bits(*x, sx::param(0), i); } ok &= set[i] == m; }
        sx::check(ok, "the filter of a sequence");
        sx::reach("sequence");
    }
    // [blocks]: of larger filters, the block
    fn h_block() {
        let n = sx::param(0);
        let hash = (sx::u32() as u64) << 32 | 0x9E3779B9;
        // the boundaries of every block
        let mut set = vec![0u8; n * 32];
        let b = sx::param(1) as u64;
        sx::assume(block(hash, n as u64) as u64 == b);
        insert(&mut set, hash);
        let mut ok = true;
        for i in 0..set.len() { ok &= (set[i] != 0) == ((i / 32 == b as usize) & (bits(0x9E3779B9, 1, i % 32) != 0)); }
        sx::check(ok, "block");
        sx::check(is_in_set(&set, hash), "in the set");
        sx::reach("block");
    }
    // [bytes]: filters without blocks hold nothing and exclude nothing
    fn h_small() {
        let before = sx::bytes(sx::param(0));
        let mut after = before.clone();
        let h = sx::u64();
        insert(&mut after, h);
        sx::check(eq_bytes(&before, &after), "no block, no bits");
        sx::check(is_in_set(&after, h) & is_in_set(&after, sx::u64()), "no block excludes nothing");
    }
    // [type]: hashes of values are those of their plain bytes, of bytes XXH64
    fn h_native() {
        let (a, b) = match sx::param(0) {
            0 => { let v = sx::i32(); (hash_native(v), xxh(&v.to_le_bytes())) }
            1 => { let v = sx::i64(); (hash_native(v), xxh(&v.to_le_bytes())) }
            2 => { let v = sx::u32(); (hash_native(f32::from_bits(v)), xxh(&v.to_le_bytes())) }
            3 => { let v = sx::u64(); (hash_native(f64::from_bits(v)), xxh(&v.to_le_bytes())) }
            _ => { let v = [sx::u32(), sx::u32(), sx::u32()]; let mut b = vec![]; for x in v { b.extend_from_slice(&x.to_le_bytes()); } (hash_native(v), xxh(&b)) }
        };
        sx::check(a == b, "hash of a native value");
        sx::observe(a);
    }
    // [bytes]
    fn h_bytes() {
        let v = sx::bytes(sx::param(0));
        let a = hash_byte(&v);
        sx::check(a == xxh(&v), "hash of bytes");
        sx::observe(a);
    }
    // [bytes of the filter, before, bytes missing (of the filter), used before]: a filter is read as it was written
    fn h_read() {
        let body = sx::bytes(sx::param(0));
        let mut file = sx::bytes(sx::param(1));
        file.extend_from_slice(&header(body.len() as i32));
        file.extend_from_slice(&body[..body.len() - sx::param(2)]);
        if sx::param(2) == 0 { file.extend_from_slice(&sx::bytes(3)); }
        let mut set = sx::bytes(sx::param(3));
        let r = read(&column(Some(sx::param(1) as i64)), &mut Cursor::new(&file), &mut set);
        if sx::param(2) == 0 {
            sx::check(r.is_ok(), "filter is read");
            sx::check(eq_bytes(&set, &body), "filter as written");
            sx::observe_bytes(&set);
        } else { sx::check(r.is_err(), "filter cut short"); }
    }
    // [used before]: a column without filter
    fn h_none() {
        let mut set = sx::bytes(sx::param(0));
        sx::check(read(&column(None), &mut Cursor::new(&[1u8, 2]), &mut set).is_ok(), "no filter");
        sx::check(set.is_empty(), "no filter, no bytes");
        sx::check(is_in_set(&set, sx::u64()), "no filter excludes nothing");
    }
    // [bytes after the header]: any declared length and offset
    fn h_declared() {
        let n = sx::i32();
        let mut file = header(n);
        let body = sx::bytes(sx::param(0));
        let at = file.len();
        file.extend_from_slice(&body);
        let mut set = vec![7u8; 5];
        sx::alloc_limit(4096, true);
        let r = read(&column(Some(0)), &mut Cursor::new(&file), &mut set);
        sx::alloc_limit(1 << 40, false);
        sx::check(r.is_ok() == ((n >= 0) & (n as i64 <= body.len() as i64)), "declared length");
        if r.is_ok() { sx::check(eq_bytes(&set, &file[at..at + set.len()]) & (set.len() as i64 == n as i64), "bytes of the declared length"); sx::reach("read"); }
        else { sx::reach("refused"); }
    }
    // [which]: any offset
    fn h_offset() {
        let o = sx::i64();
        sx::assume((o < 0) | (o > 40));
        let mut set = vec![7u8; 5];
        let mut file = header(8);
        file.extend_from_slice(&[1; 8]);
        sx::check(read(&column(Some(o)), &mut Cursor::new(&file), &mut set).is_err(), "offset beyond the file");
    }
    // [byte, value]: another algorithm, hash or compression
    fn h_unknown() {
        let mut h = header(32);
        // field ids of the unions are the struct markers 0x1c within the three nested structs
        let mut seen = 0;
        for i in 0..h.len() { if h[i] == 0x1c && i > 2 { if seen == sx::param(0) { h[i] = (sx::range(2, 15) as u8) << 4 | 0x0c; } seen += 1; } }
        sx::check(seen >= 3, "three unions");
        let mut file = h;
        file.extend_from_slice(&[0xff; 32]);
        let mut set = vec![7u8; 5];
        let r = read(&column(Some(0)), &mut Cursor::new(&file), &mut set);
        sx::check(r.is_err() || set.is_empty(), "filter of another kind is not used");
        sx::reach("unknown");
    }
}
