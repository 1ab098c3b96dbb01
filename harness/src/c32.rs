use crate::files::{some, same_opt, same_stats, schema, TStats};
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::metadata::*;
use parquet2::read::*;
use parquet2::schema::types::ParquetType;
use parquet2::write::write_metadata_sidecar;
use parquet_format_safe as tf;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::io::Cursor;

fn text(n: usize) -> String {
    let b: Vec<u8> = sx::bytes(n).into_iter().map(|x| x & 0x7f).collect();
    unsafe { String::from_utf8_unchecked(b) }
}
/// a count stored in one byte
fn small() -> i64 { some() as i64 }
fn elements(s: usize) -> Vec<tf::SchemaElement> {
    let m = FileMetaData { version: 1, num_rows: 0, created_by: None, row_groups: vec![], key_value_metadata: None, schema_descr: schema(s), column_orders: None };
    m.into_thrift().schema
}
fn chunk(d: &ColumnDescriptor, seed: usize) -> tf::ColumnChunk {
    let (t, _): (tf::Type, _) = d.descriptor.primitive_type.physical_type.into();
    let o = |b: usize| if seed >> b & 1 == 1 { Some(small()) } else { None };
    let m = tf::ColumnMetaData {
        type_: t,
        encodings: (0..seed % 3).map(|_| tf::Encoding(small() as i32)).collect(),
        path_in_schema: d.path_in_schema.clone(),
        codec: tf::CompressionCodec([0, 1, 2, 4, 5, 6, 7][seed % 7]),
        num_values: small(),
        total_uncompressed_size: small(),
        total_compressed_size: small(),
        key_value_metadata: if seed & 2 == 2 { Some(vec![KeyValue { key: text(1), value: if seed & 4 == 4 { Some(text(2)) } else { None } }]) } else { None },
        data_page_offset: small(),
        index_page_offset: o(0),
        dictionary_page_offset: o(1),
        statistics: if seed & 1 == 1 { Some(TStats { max: Some(sx::bytes(2)), min: None, null_count: o(2), distinct_count: o(0), max_value: Some(sx::bytes(1)), min_value: Some(vec![]) }) } else { None },
        encoding_stats: if seed & 4 == 4 { Some(vec![tf::PageEncodingStats { page_type: tf::PageType(small() as i32), encoding: tf::Encoding(small() as i32), count: small() as i32 }]) } else { None },
        bloom_filter_offset: o(2),
    };
    tf::ColumnChunk {
        file_path: if seed & 8 == 8 { Some(text(2)) } else { None }, file_offset: small(), meta_data: Some(m),
        offset_index_offset: o(0), offset_index_length: o(0).map(|x| x as i32), column_index_offset: o(1), column_index_length: o(1).map(|x| x as i32),
        crypto_metadata: None, encrypted_column_metadata: None,
    }
}
/// metadata of `g` row groups, the details of which depend on `seed`
fn metadata(s: usize, g: usize, seed: usize) -> tf::FileMetaData {
    let sd = schema(s);
    tf::FileMetaData {
        version: small() as i32,
        schema: elements(s),
        num_rows: small(),
        row_groups: (0..g).map(|i| tf::RowGroup {
            columns: sd.columns().iter().enumerate().map(|(j, d)| chunk(d, seed + i + 3 * j)).collect(),
            total_byte_size: small(), num_rows: small(), sorting_columns: None, file_offset: None, total_compressed_size: None, ordinal: None,
        }).collect(),
        key_value_metadata: match seed % 3 { 0 => None, 1 => Some(vec![]), _ => Some(vec![KeyValue { key: text(2), value: Some(text(1)) }, KeyValue { key: text(0), value: None }]) },
        created_by: if seed % 2 == 1 { Some(text(3)) } else { None },
        column_orders: if seed % 4 < 2 { None } else { Some(sd.columns().iter().map(|_| tf::ColumnOrder::TYPEORDER(Default::default())).collect()) },
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    }
}
fn put(f: &mut Vec<u8>, m: &tf::FileMetaData) -> usize { m.write_to_out_protocol(&mut TCompactOutputProtocol::new(f)).unwrap() }
fn footer(f: &mut Vec<u8>, n: i32) { f.extend_from_slice(&n.to_le_bytes()); f.extend_from_slice(b"PAR1"); }
fn same_text(a: &Option<String>, b: &Option<String>) -> bool { same_opt(&a.as_ref().map(|x| x.as_bytes().to_vec()), &b.as_ref().map(|x| x.as_bytes().to_vec())) }
fn same_kv(a: &Option<Vec<KeyValue>>, b: &Option<Vec<KeyValue>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => {
            let mut ok = a.len() == b.len();
            for (a, b) in a.iter().zip(b) { ok &= eq_bytes(a.key.as_bytes(), b.key.as_bytes()) & same_text(&a.value, &b.value); }
            ok
        }
        (None, None) => true,
        _ => false,
    }
}
fn same_o(a: Option<i64>, b: Option<i64>) -> bool { (a.is_some() == b.is_some()) & (a.unwrap_or(0) == b.unwrap_or(0)) }
fn same_chunk(a: &tf::ColumnChunk, b: &tf::ColumnChunk) -> bool {
    let (x, y) = match (&a.meta_data, &b.meta_data) { (Some(x), Some(y)) => (x, y), _ => return false };
    let mut ok = same_text(&a.file_path, &b.file_path) & (a.file_offset == b.file_offset) & same_o(a.offset_index_offset, b.offset_index_offset)
        & same_o(a.offset_index_length.map(|x| x as i64), b.offset_index_length.map(|x| x as i64)) & same_o(a.column_index_offset, b.column_index_offset)
        & same_o(a.column_index_length.map(|x| x as i64), b.column_index_length.map(|x| x as i64));
    ok &= (x.type_ == y.type_) & (x.codec == y.codec) & (x.num_values == y.num_values) & (x.total_uncompressed_size == y.total_uncompressed_size) & (x.total_compressed_size == y.total_compressed_size)
        & (x.data_page_offset == y.data_page_offset) & same_o(x.index_page_offset, y.index_page_offset) & same_o(x.dictionary_page_offset, y.dictionary_page_offset) & same_o(x.bloom_filter_offset, y.bloom_filter_offset)
        & same_kv(&x.key_value_metadata, &y.key_value_metadata) & same_stats(&x.statistics, &y.statistics);
    ok &= x.path_in_schema == y.path_in_schema;
    ok &= x.encodings.len() == y.encodings.len();
    for (a, b) in x.encodings.iter().zip(&y.encodings) { ok &= a.0 == b.0; }
    match (&x.encoding_stats, &y.encoding_stats) {
        (Some(a), Some(b)) => { ok &= a.len() == b.len(); for (a, b) in a.iter().zip(b) { ok &= (a.page_type.0 == b.page_type.0) & (a.encoding.0 == b.encoding.0) & (a.count == b.count); } }
        (None, None) => {}
        _ => return false,
    }
    ok
}
/// compares what was read with what was stored
fn compare(m: &FileMetaData, t: &tf::FileMetaData, s: &SchemaDescriptor) {
    sx::check((m.version == t.version) & (m.num_rows as i64 == t.num_rows), "version and rows");
    sx::check(same_text(&m.created_by, &t.created_by), "creator");
    sx::check(same_kv(&m.key_value_metadata, &t.key_value_metadata) & same_kv(m.key_value_metadata(), &t.key_value_metadata), "key-values");
    sx::check(m.schema().fields() == s.fields() && m.schema().name() == s.name() && m.schema().columns() == s.columns(), "schema");
    match (&m.column_orders, &t.column_orders) {
        (Some(a), Some(b)) => {
            sx::check(a.len() == b.len(), "number of orders");
            for i in 0..a.len() { sx::check(matches!(a[i], ColumnOrder::TypeDefinedOrder(_)) && m.column_order(i) == a[i], "order"); }
        }
        (None, None) => sx::check(m.column_order(0) == ColumnOrder::Undefined, "no order"),
        _ => sx::check(false, "orders"),
    }
    sx::check(m.row_groups.len() == t.row_groups.len(), "number of row groups");
    for (a, b) in m.row_groups.iter().zip(&t.row_groups) {
        sx::check((a.num_rows() as i64 == b.num_rows) & (a.total_byte_size() as i64 == b.total_byte_size), "rows and size of the row group");
        sx::check(a.columns().len() == b.columns.len(), "columns of the row group");
        let mut size = 0;
        for (i, (x, y)) in a.columns().iter().zip(&b.columns).enumerate() {
            sx::check(same_chunk(x.column_chunk(), y), "column chunk");
            sx::check(*x.descriptor() == s.columns()[i], "column descriptor");
            let z = y.meta_data.as_ref().unwrap();
            size += z.total_compressed_size;
            sx::check((x.num_values() == z.num_values) & (x.compressed_size() == z.total_compressed_size) & (x.uncompressed_size() == z.total_uncompressed_size) & (x.data_page_offset() == z.data_page_offset)
                & same_o(x.index_page_offset(), z.index_page_offset) & same_o(x.dictionary_page_offset(), z.dictionary_page_offset) & (x.has_index_page() == z.index_page_offset.is_some())
                & (x.file_offset() == y.file_offset) & same_text(x.file_path(), &y.file_path), "fields of the column chunk");
            let c: tf::CompressionCodec = x.compression().into();
            sx::check(c == z.codec && x.column_encoding().len() == z.encodings.len() && x.physical_type() == s.columns()[i].descriptor.primitive_type.physical_type, "codec, encodings, type");
            let (at, n) = x.byte_range();
            sx::check((at as i64 == z.dictionary_page_offset.unwrap_or(z.data_page_offset)) & (n as i64 == z.total_compressed_size), "bytes of the chunk");
        }
        sx::check(a.compressed_size() as i64 == size, "compressed size of the row group");
        sx::reach("row group");
    }
}

harnesses! {
    // [schema, row groups, seed, bytes before]: what is stored in a footer is read back, and stored again the same
    fn h_roundtrip() {
        let t = metadata(sx::param(0), sx::param(1), sx::param(2));
        let s = schema(sx::param(0));
        let mut f = sx::bytes(sx::param(3).max(4));
        let n = put(&mut f, &t);
        footer(&mut f, n as i32);
        let m = match read_metadata(&mut Cursor::new(&f)) { Ok(m) => m, Err(_) => return sx::check(false, "metadata is refused") };
        compare(&m, &t, &s);
        // stored again
        let u = m.into_thrift();
        for (a, b) in u.row_groups.iter().zip(&t.row_groups) {
            sx::check((a.total_byte_size == b.total_byte_size) & (a.num_rows == b.num_rows) & (a.columns.len() == b.columns.len()), "stored row group");
            let mut size = 0;
            for (x, y) in a.columns.iter().zip(&b.columns) {
                sx::check(same_chunk(x, y), "stored column chunk");
                size += y.meta_data.as_ref().unwrap().total_compressed_size;
            }
            sx::check(a.total_compressed_size == Some(size), "stored compressed size");
            // a row group starts where its first column does
            let start = b.columns.first().map(|y| { let z = y.meta_data.as_ref().unwrap(); match z.dictionary_page_offset { Some(d) => if d > 0 { d } else { z.data_page_offset }, None => z.data_page_offset } });
            sx::check(same_o(a.file_offset, start), "stored start");
        }
        sx::check(u.column_orders.as_ref().map(|x| x.len()) == t.column_orders.as_ref().map(|x| x.len()), "stored orders");
        let mut g = vec![0; 4];
        let n = put(&mut g, &u);
        footer(&mut g, n as i32);
        match read_metadata(&mut Cursor::new(&g)) { Ok(m) => compare(&m, &t, &s), Err(_) => sx::check(false, "metadata stored again is refused") }
        sx::reach("done");
    }
    // [schema, row groups, seed]: a file of nothing but metadata, as written by write_metadata_sidecar
    fn h_sidecar() {
        let t = metadata(sx::param(0), sx::param(1), sx::param(2));
        let s = schema(sx::param(0));
        let mut plain = vec![];
        let n = put(&mut plain, &t);
        let mut f = vec![];
        match write_metadata_sidecar(&mut f, &t) { Ok(l) => sx::check(l as usize == f.len(), "length of the file"), Err(_) => return sx::check(false, "is written") }
        sx::check(f.len() == n + 12, "magic numbers, metadata and its length");
        sx::check(eq_bytes(&f[..4], b"PAR1") && eq_bytes(&f[4..4 + n], &plain) && eq_bytes(&f[4 + n..8 + n], &(n as i32).to_le_bytes()) && eq_bytes(&f[8 + n..], b"PAR1"), "bytes of the file");
        match read_metadata(&mut Cursor::new(&f)) { Ok(m) => compare(&m, &t, &s), Err(_) => sx::check(false, "the file is refused") }
        match deserialize_metadata(&f[4..], 1 << 16) { Ok(m) => compare(&m, &t, &s), Err(_) => sx::check(false, "the metadata is refused") }
        sx::reach("done");
    }
    // [field]: one field of the metadata with any value
    fn h_field() {
        let s = schema(2);
        let mut t = metadata(2, 2, 4);
        let x = sx::i64();
        let y = sx::i32();
        let k = sx::param(0);
        let other = t.row_groups[1].columns[0].meta_data.as_ref().unwrap().total_compressed_size;
        let good = {
            let c = &mut t.row_groups[1].columns[1];
            let m = c.meta_data.as_mut().unwrap();
            match k {
                0 => { m.num_values = x; x >= 0 }
                1 => { m.total_uncompressed_size = x; x >= 0 }
                2 => { m.total_compressed_size = x; (x >= 0) & (x <= i64::MAX - other) }
                3 => { m.data_page_offset = x; x >= 0 }
                4 => { m.dictionary_page_offset = Some(x); x >= 0 }
                5 => { m.codec = tf::CompressionCodec(y); (y >= 0) & (y <= 7) }
                6 => { m.type_ = tf::Type(y); y == 6 }
                7 => { m.index_page_offset = Some(x); true }
                8 => { c.file_offset = x; true }
                9 => { c.offset_index_offset = Some(x); true }
                10 => { c.column_index_length = Some(y); true }
                11 => { m.bloom_filter_offset = Some(x); true }
                12 => { t.row_groups[0].num_rows = x; x >= 0 }
                13 => { t.row_groups[1].total_byte_size = x; x >= 0 }
                14 => { t.num_rows = x; x >= 0 }
                15 => { t.version = y; true }
                16 => { c.meta_data = None; false }
                17 => { t.row_groups[0].columns.pop(); false }
                18 => { let c = t.row_groups[1].columns[0].clone(); t.row_groups[1].columns.push(c); false }
                19 => { t.row_groups[0].columns.swap(0, 1); false }
                20 => { m.encodings = vec![tf::Encoding(y), tf::Encoding(0)]; true }
                21 => { m.statistics = Some(TStats { max: None, min: None, null_count: Some(x), distinct_count: None, max_value: None, min_value: None }); true }
                _ => { m.codec = tf::CompressionCodec(3); true }
            }
        };
        let mut f = vec![0; 4];
        let n = put(&mut f, &t);
        footer(&mut f, n as i32);
        match read_metadata(&mut Cursor::new(&f)) {
            Ok(m) => {
                sx::check(good, "inconsistent metadata is accepted");
                // the sum of the compressed sizes of a row group need not be small
                if k != 2 { compare(&m, &t, &s); } else { sx::check(same_chunk(m.row_groups[1].columns()[1].column_chunk(), &t.row_groups[1].columns[1]), "column chunk"); }
                sx::reach("accepted");
            }
            Err(_) => { sx::check(!good, "metadata is refused"); sx::reach("refused"); }
        }
    }
    // [bytes of the metadata beyond 65536 - 8 (plus 4), bytes before]: metadata around the size of the first read
    fn h_large() {
        let s = schema(1);
        let mut t = metadata(1, 1, 2);
        let want = 65536 - 8 + sx::param(0) - 4;
        t.key_value_metadata = None;
        t.created_by = Some(String::new());
        let mut probe = vec![];
        let n = put(&mut probe, &t);
        // the length of a long text takes three bytes instead of one
        let mut b = vec![b'x'; want - n - 2];
        let last = b.len() - 1;
        b[0] = sx::u8() & 0x7f;
        b[last] = sx::u8() & 0x7f;
        t.created_by = Some(unsafe { String::from_utf8_unchecked(b) });
        let mut f = sx::bytes(4);
        f.resize(4 + sx::param(1), 7);
        let n = put(&mut f, &t);
        sx::check(n == want, "size of the metadata");
        footer(&mut f, n as i32);
        match read_metadata(&mut Cursor::new(&f)) { Ok(m) => { compare(&m, &t, &s); sx::reach("large") } Err(_) => sx::check(false, "large metadata is refused") }
    }
    // [bytes before the metadata, what is free]: any length of the metadata and any magic number
    fn h_footer() {
        let s = schema(1);
        let mut t = metadata(1, 0, 1);
        t.version = 1;
        t.num_rows = 5;
        t.created_by = Some("abc".to_string());
        let mut f = vec![0; sx::param(0)];
        let n = put(&mut f, &t);
        let len = if sx::param(1) == 0 { n as i32 } else { sx::i32() };
        let magic = if sx::param(1) == 1 { u32::from_le_bytes(*b"PAR1") } else { sx::u32() };
        f.extend_from_slice(&len.to_le_bytes());
        f.extend_from_slice(&magic.to_le_bytes());
        sx::alloc_limit(1 << 20, true);
        let good = magic == u32::from_le_bytes(*b"PAR1");
        match read_metadata(&mut Cursor::new(&f)) {
            Ok(m) => {
                sx::check(good, "wrong magic number");
                sx::check((len >= 0) & (len as i64 <= f.len() as i64 - 8), "length beyond the file");
                if len as usize == n { compare(&m, &t, &s); sx::reach("footer"); }
            }
            Err(_) => { sx::check(!(good & (len as i64 == n as i64)) | (f.len() < 12), "footer is refused"); sx::reach("refused"); }
        }
    }
    // [size of the file]: small files are refused
    fn h_tiny() {
        let f = sx::bytes(sx::param(0));
        let r = read_metadata(&mut Cursor::new(&f));
        sx::check(r.is_err(), "file without metadata is accepted");
        // a size larger than the file
        let g = { let mut g = vec![0; 4]; let n = put(&mut g, &metadata(1, 0, 0)); footer(&mut g, n as i32); g };
        let size = sx::u64();
        sx::assume(size > g.len() as u64);
        sx::alloc_limit(1 << 20, true);
        sx::check(read_metadata_with_size(&mut Cursor::new(&g), size).is_err(), "wrong size of the file is accepted");
        sx::reach("tiny");
    }
}
#[allow(dead_code)]
fn unused(_: &ParquetType) {}
