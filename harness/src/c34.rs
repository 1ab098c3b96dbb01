use crate::aio::*;
use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::bloom_filter;
use parquet2::compression::{BrotliLevel, Compression, CompressionOptions};
use parquet2::encoding::Encoding;
use parquet2::indexes::*;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::compression::compress;
use futures::StreamExt;
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as tf;
use parquet_format_safe::thrift::protocol::{TCompactInputProtocol, TCompactOutputProtocol};
use std::io::Cursor;
use std::sync::Arc;

/// the largest page the reader may accept
const PAGE: usize = 4096;
/// heap memory that reading `n` bytes may take
fn allowance(n: usize) -> usize { 256 * n + (1 << 17) + 4 * PAGE }
fn guard() { sx::alloc_limit(1 << 20, true); sx::memory(true); }
/// (the header of a located page may take up to 1 MiB)
fn bounded_located(n: usize) { sx::check(sx::memory(false) <= allowance(n) + (1 << 20), "memory out of proportion"); sx::memory(true); }
fn bounded(n: usize) { sx::check(sx::memory(false) <= allowance(n), "memory out of proportion"); }

fn use_page(p: &Page) {
    match p {
        Page::Data(p) => {
            let _ = (p.num_values(), p.encoding(), p.definition_level_encoding(), p.repetition_level_encoding(), p.selected_rows().map(|x| x.len()));
            if let Some(Ok(s)) = p.statistics() { let _ = s.null_count(); }
            if let Ok((a, b, c)) = split_buffer(p) { sx::check(a.len() + b.len() + c.len() <= p.buffer().len(), "parts of a page"); sx::reach("parts of a page"); }
            sx::reach("data page");
        }
        Page::Dict(p) => { let _ = (p.num_values, p.is_sorted, p.buffer.len()); sx::reach("dictionary page"); }
    }
}
fn use_compressed(p: &CompressedPage) {
    match p {
        CompressedPage::Data(p) => {
            let _ = (p.num_values(), p.compressed_size(), p.uncompressed_size(), p.compression(), p.selected_rows().map(|x| x.len()));
            if let Some(Ok(s)) = p.statistics() { let _ = s.null_count(); }
        }
        CompressedPage::Dict(_) => {}
    }
}
/// all the pages of a chunk, within `max`
fn use_pages<I: Iterator<Item = parquet2::error::Result<CompressedPage>>>(it: I, source: usize, copies: bool) {
    let mut n = 0;
    let mut bytes = 0;
    for p in it {
        n += 1;
        // every page has a header, an error ends the chunk
        sx::check(n <= source + 1, "pages without end");
        match p {
            Ok(p) => {
                use_compressed(&p);
                if let CompressedPage::Data(p) = &p { bytes += p.compressed_size(); }
                if !copies { sx::check(bytes <= source, "pages larger than the source"); }
                if let Ok(p) = decompress(p, &mut vec![]) { use_page(&p); }
            }
            Err(_) => { sx::reach("bad page"); }
        }
    }
}
/// a place in the file is explored on its own
fn pin(f: &[u8], x: i64) -> i64 { if x >= 0 && x < f.len() as i64 { sx::concrete(x as usize) as i64 } else { x } }
fn pinned(f: &[u8], c: &ColumnChunkMetaData) -> ColumnChunkMetaData {
    let mut x = c.column_chunk().clone();
    let m = x.meta_data.as_mut().unwrap();
    m.data_page_offset = pin(f, m.data_page_offset);
    m.dictionary_page_offset = m.dictionary_page_offset.map(|x| pin(f, x));
    m.bloom_filter_offset = m.bloom_filter_offset.map(|x| pin(f, x));
    x.column_index_offset = x.column_index_offset.map(|x| pin(f, x));
    x.offset_index_offset = x.offset_index_offset.map(|x| pin(f, x));
    ColumnChunkMetaData::new(x, c.descriptor().clone())
}
fn use_chunk(f: &[u8], c: &ColumnChunkMetaData) {
    let _ = (c.file_path().is_some(), c.file_offset(), c.physical_type(), c.num_values(), c.compression(), c.compressed_size(), c.uncompressed_size());
    let _ = (c.data_page_offset(), c.has_index_page(), c.index_page_offset(), c.dictionary_page_offset(), c.column_encoding().len(), c.byte_range(), c.descriptor().path_in_schema.len());
    if let Some(Ok(s)) = c.statistics() { let _ = s.null_count(); sx::reach("statistics"); }
    if let Ok(it) = get_page_iterator(c, Cursor::new(f), None, vec![], PAGE) { use_pages(it, f.len(), false); }
    let mut b = vec![];
    if bloom_filter::read(c, &mut Cursor::new(f), &mut b).is_ok() && !b.is_empty() {
        sx::check(b.len() <= f.len(), "bloom filter larger than the source");
        if b.len() % 32 == 0 && b.len() < 1024 { let _ = bloom_filter::is_in_set(&b, 77); sx::reach("bloom filter"); }
    }
}
/// opens a file and reads everything it has
fn explore(f: &[u8]) {
    guard();
    let m = match read_metadata(&mut Cursor::new(f)) { Ok(m) => m, Err(_) => { sx::reach("refused"); return bounded(f.len()); } };
    let _ = (m.num_rows, m.version, m.created_by.is_some(), m.key_value_metadata().is_some(), m.schema().columns().len(), m.schema().name().len());
    for i in 0..m.schema_descr.columns().len() { let _ = m.column_order(i); }
    bounded(f.len());
    for g in &m.row_groups {
        let _ = (g.num_rows(), g.total_byte_size(), g.compressed_size());
        let columns: Vec<_> = g.columns().iter().map(|c| pinned(f, c)).collect();
        for c in &columns { use_chunk(f, c); }
        for x in m.schema().fields() {
            let _ = get_field_columns(g.columns(), x.name()).count();
            let _ = get_column_iterator(Cursor::new(f), g, x.name(), None, vec![], PAGE);
            let mut it = ColumnIterator::new(Cursor::new(f), get_field_columns(&columns, x.name()).cloned().collect(), None, vec![], PAGE);
            let mut n = 0;
            loop {
                match it.advance() {
                    Ok(State::Some(mut x)) => {
                        if let Some((pages, _)) = x.get() { for p in pages { n += 1; if let Ok(p) = p { use_compressed(&p); sx::reach("page of a field"); } } }
                        it = x;
                    }
                    _ => break,
                }
                n += 1;
                if n > 4 * f.len() + 4 { return sx::check(false, "pages without end"); }
            }
        }
        if let Ok(i) = read_columns_indexes(&mut Cursor::new(f), &columns) {
            for i in &i { let _ = i.physical_type(); sx::reach("column index"); }
        }
        bounded(f.len());
        if let Ok(l) = read_pages_locations(&mut Cursor::new(f), &columns) {
            bounded(f.len());
            for (l, c) in l.iter().zip(&columns) { use_locations(f, l, g.num_rows(), c); }
            bounded_located(f.len());
        }
    }
    bounded(f.len());
    sx::reach("opened");
}
/// the same with the asynchronous readers
fn explore_async(f: &[u8]) {
    guard();
    let mut io = Io::new(f.to_vec());
    block_on(async {
        let m = match read_metadata_async(&mut io).await { Ok(m) => m, Err(_) => return sx::reach("refused asynchronously") };
        bounded(f.len());
        for g in &m.row_groups {
            let columns: Vec<_> = g.columns().iter().map(|c| pinned(f, c)).collect();
            for c in &columns {
                if let Ok(s) = get_page_stream(c, &mut io, vec![], Arc::new(|_, _| true), PAGE).await {
                    let mut s = std::pin::pin!(s);
                    let mut n = 0;
                    while let Some(p) = s.next().await {
                        n += 1;
                        if n > f.len() { return sx::check(false, "pages without end"); }
                        if let Ok(p) = p { use_compressed(&p); if let Ok(p) = decompress(p, &mut vec![]) { use_page(&p); sx::reach("page of a stream"); } }
                    }
                };
            }
        }
    });
    bounded(f.len());
}
/// the pages of some rows
fn use_locations(f: &[u8], l: &[tf::PageLocation], rows: usize, c: &ColumnChunkMetaData) {
    let l: Vec<_> = l.iter().map(|x| tf::PageLocation { offset: pin(f, x.offset), compressed_page_size: x.compressed_page_size, first_row_index: x.first_row_index }).collect();
    let l = l.as_slice();
    let _ = compute_rows(&vec![true; l.len()], l, rows);
    if let Ok(p) = select_pages(&[Interval::new(0, 3), Interval::new(5, usize::MAX - 5)], l, rows) {
        sx::check(p.len() == l.len(), "one per location");
        let it = IndexedPageReader::new(Cursor::new(f), c, p, vec![], vec![]);
        let mut n = 0;
        for p in it {
            n += 1;
            sx::check(n <= l.len() + 1, "pages without end");
            if let Ok(p) = p {
                use_compressed(&p);
                // (no limit can be given for the size once decompressed)
                let big = match &p { CompressedPage::Data(p) => p.uncompressed_size() > PAGE || false, CompressedPage::Dict(_) => c.compression() != Compression::Uncompressed };
                if c.compression() == Compression::Uncompressed || !big { if let Ok(p) = decompress(p, &mut vec![]) { use_page(&p); } }
                sx::reach("located page");
            }
        }
    }
}
/// a file of two columns with a dictionary, statistics, indexes and a bloom filter; nested or flat
fn parts(kind: usize) -> (Vec<u8>, tf::FileMetaData) {
    let s = SchemaDescriptor::new("s".to_string(), match kind {
        0 => vec![leaf("a", PhysicalType::Int32, Repetition::Optional), leaf("b", PhysicalType::ByteArray, Repetition::Required)],
        _ => vec![group("g", Repetition::Repeated, vec![leaf("x", PhysicalType::FixedLenByteArray(3), Repetition::Optional)]), leaf("y", PhysicalType::Boolean, Repetition::Required)],
    });
    let stats = |w: usize| Some(TStats { max: None, min: None, null_count: Some(1), distinct_count: None, max_value: Some(vec![1; w]), min_value: Some(vec![0; w]) });
    let data = |two: bool, w: usize, n: usize, buf: Vec<u8>| {
        let header = if two {
            match header_v2(n as i32, n as i32, Encoding::Plain, 0, 0) { DataPageHeader::V2(mut h) => { h.statistics = stats(w); h.definition_levels_byte_length = 1; DataPageHeader::V2(h) } h => h }
        } else {
            match v1(n as i32, Encoding::RleDictionary, Encoding::Rle, Encoding::Rle) { DataPageHeader::V1(mut h) => { h.statistics = stats(w); DataPageHeader::V1(h) } h => h }
        };
        Spec::Data { header, buf, rows: Some(n) }
    };
    let w = if kind == 0 { [4, 2] } else { [3, 1] };
    let g: Vec<Vec<Spec>> = vec![
        vec![Spec::Dict { buf: vec![1, 2, 3, 4], n: 1, sorted: false }, data(false, w[0], 4, vec![2, 0, 0, 0, 8, 1, 7, 9]), data(true, w[0], 3, vec![9, 8, 7])],
        vec![data(true, w[1], 7, vec![5, 6])],
    ];
    let (f, _, _) = write(Cursor::new(vec![]), &s, options(true, false), None, &[g], Some(vec![tf::KeyValue { key: "k".to_string(), value: None }])).unwrap();
    let mut f = f.into_inner();
    let n = f.len();
    let len = u32::from_le_bytes([f[n - 8], f[n - 7], f[n - 6], f[n - 5]]) as usize;
    let mut m = tf::FileMetaData::read_from_in_protocol(&mut TCompactInputProtocol::new(&f[n - 8 - len..n - 8], 1 << 16)).unwrap();
    f.truncate(n - 8 - len);
    // a bloom filter
    let at = f.len();
    let h = tf::BloomFilterHeader { num_bytes: 32, algorithm: tf::BloomFilterAlgorithm::BLOCK(tf::SplitBlockAlgorithm {}), hash: tf::BloomFilterHash::XXHASH(tf::XxHash {}), compression: tf::BloomFilterCompression::UNCOMPRESSED(tf::Uncompressed {}) };
    h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut f)).unwrap();
    f.extend_from_slice(&[3; 32]);
    m.row_groups[0].columns[0].meta_data.as_mut().unwrap().bloom_filter_offset = Some(at as i64);
    (f, m)
}
fn whole(mut body: Vec<u8>, m: &tf::FileMetaData) -> Vec<u8> {
    let at = body.len();
    m.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut body)).unwrap();
    let len = (body.len() - at) as u32;
    body.extend_from_slice(&len.to_le_bytes());
    body.extend_from_slice(b"PAR1");
    body
}
fn meta(m: &mut tf::FileMetaData) -> &mut tf::ColumnMetaData { m.row_groups[0].columns[0].meta_data.as_mut().unwrap() }
fn chunk(m: &mut tf::FileMetaData) -> &mut tf::ColumnChunk { &mut m.row_groups[0].columns[0] }
/// any number of w bytes and no less, of 32 bits
fn varint(f: &mut Vec<u8>, w: usize) { for i in 0..w { let b = sx::u8(); sx::assume(w == 1 || i + 1 < w || b & [0x7f, 0x0f][(w > 4) as usize] != 0); f.push(if i + 1 < w { b | 0x80 } else { b & 0x7f }); } }
/// any size not accepted, or one that is
fn size() -> i32 {
    match sx::choose(40) { 0 => { let x = sx::i32(); sx::assume(x < 0 || x > PAGE as i32); x } 1 => PAGE as i32, n => n as i32 - 2 }
}
/// any place out of the file, or one of 16 in it
fn place(n: usize) -> i64 {
    if n == 0 { let x = sx::i64(); sx::assume(x < 0 || x >= 2048); x } else { (16 * (n - 1) + sx::choose(16)) as i64 }
}
fn set(m: &mut tf::FileMetaData, field: usize, n: usize) {
    let leaf = m.schema.iter().position(|x| x.type_.is_some()).unwrap();
    match field {
        0 => meta(m).data_page_offset = place(n),
        1 => meta(m).dictionary_page_offset = Some(place(n)),
        2 => meta(m).index_page_offset = Some(sx::i64()),
        3 => meta(m).total_compressed_size = sx::i64(),
        4 => meta(m).total_uncompressed_size = sx::i64(),
        5 => meta(m).num_values = sx::i64(),
        6 => meta(m).codec = tf::CompressionCodec(sx::i32()),
        7 => chunk(m).column_index_offset = Some(place(n)),
        8 => chunk(m).column_index_length = Some(sx::i32()),
        9 => chunk(m).offset_index_offset = Some(place(n)),
        10 => chunk(m).offset_index_length = Some(sx::i32()),
        11 => meta(m).bloom_filter_offset = Some(place(n)),
        12 => m.row_groups[0].num_rows = sx::i64(),
        13 => m.row_groups[0].total_byte_size = sx::i64(),
        14 => meta(m).type_ = tf::Type(sx::i32()),
        15 => m.row_groups[0].file_offset = Some(sx::i64()),
        16 => m.row_groups[0].total_compressed_size = Some(sx::i64()),
        17 => m.schema[0].num_children = Some(sx::i32()),
        18 => m.schema[n].num_children = Some(sx::i32()),
        19 => m.schema[leaf].type_length = Some(sx::i32()),
        20 => m.schema[leaf].type_ = Some(tf::Type(sx::i32())),
        21 => m.schema[n].repetition_type = Some(tf::FieldRepetitionType(sx::i32())),
        22 => m.schema[n].converted_type = Some(tf::ConvertedType(sx::i32())),
        23 => { let s = &mut m.schema[leaf]; s.converted_type = Some(tf::ConvertedType::DECIMAL); s.scale = Some(sx::i32()); s.precision = Some([9, 0, -1, i32::MAX][n]); }
        24 => { let s = &mut m.schema[leaf]; s.converted_type = Some(tf::ConvertedType::DECIMAL); s.scale = Some([0, 3, -1, i32::MIN][n]); s.precision = Some(sx::i32()); }
        25 => m.schema[n].field_id = Some(sx::i32()),
        26 => m.version = sx::i32(),
        27 => m.num_rows = sx::i64(),
        28 => chunk(m).file_offset = sx::i64(),
        29 => meta(m).encodings[0] = tf::Encoding(sx::i32()),
        30 => m.schema[leaf].logical_type = Some(tf::LogicalType::DECIMAL(tf::DecimalType { scale: sx::i32(), precision: [9, 0, -1, i32::MAX][n] })),
        31 => m.schema[leaf].logical_type = Some(tf::LogicalType::DECIMAL(tf::DecimalType { scale: [0, 3, -1, i32::MIN][n], precision: sx::i32() })),
        32 => m.schema[leaf].logical_type = Some(tf::LogicalType::INTEGER(tf::IntType { bit_width: sx::i8(), is_signed: n == 1 })),
        33 => meta(m).statistics.as_mut().unwrap().null_count = Some(sx::i64()),
        34 => m.row_groups[0].sorting_columns = Some(vec![tf::SortingColumn { column_idx: sx::i32(), descending: true, nulls_first: false }]),
        35 => m.row_groups[0].ordinal = Some(sx::i16()),
        // the lengths of lists and of values, what is missing
        40 => { m.row_groups[0].columns.pop(); }
        41 => { let c = chunk(m).clone(); m.row_groups[0].columns.push(c); }
        42 => m.row_groups[0].columns.clear(),
        43 => chunk(m).meta_data = None,
        44 => { let s = meta(m).statistics.as_mut().unwrap(); s.min_value = Some(sx::bytes(n)); s.max_value = None; s.null_count = None; }
        45 => { let s = meta(m).statistics.as_mut().unwrap(); s.min = Some(sx::bytes(n)); s.max = Some(sx::bytes(n)); s.min_value = None; s.max_value = None; }
        46 => meta(m).encodings.clear(),
        47 => meta(m).path_in_schema.clear(),
        48 => m.column_orders = [None, Some(vec![]), Some(vec![tf::ColumnOrder::TYPEORDER(tf::TypeDefinedOrder {}); 3])][n].clone(),
        49 => { m.schema.truncate(n); }
        50 => { let s = m.schema[n].clone(); m.schema.push(s); }
        51 => m.schema[n].name.clear(),
        52 => m.schema[n].repetition_type = None,
        53 => m.schema[leaf].type_ = None,
        54 => { m.schema[leaf].num_children = Some(0); }
        55 => { let g = m.row_groups[0].clone(); m.row_groups.push(g); }
        56 => m.row_groups.clear(),
        57 => chunk(m).column_index_offset = None,
        58 => chunk(m).column_index_length = None,
        59 => chunk(m).offset_index_offset = None,
        60 => chunk(m).offset_index_length = None,
        61 => chunk(m).file_path = Some("other".to_string()),
        62 => m.schema[leaf].type_length = None,
        63 => { m.row_groups[0].columns.swap(0, 1); }
        64 => { m.schema[0].type_ = Some(tf::Type::INT32); }
        65 => { m.schema[n].num_children = None; }
        // several fields that go together
        70 => { let x = place(n); meta(m).data_page_offset = x; meta(m).dictionary_page_offset = Some(x); }
        71 => { chunk(m).column_index_offset = Some(place(n)); chunk(m).column_index_length = Some([0, 1, 9, -1, i32::MAX][sx::choose(5)]); }
        72 => { chunk(m).offset_index_offset = Some(place(n)); chunk(m).offset_index_length = Some([0, 1, 9, -1, i32::MAX][sx::choose(5)]); }
        73 => { meta(m).total_compressed_size = sx::i64(); let c = &mut m.row_groups[0].columns[1]; c.meta_data.as_mut().unwrap().total_compressed_size = [i64::MAX, 0, 1, i64::MIN][n]; }
        74 => { meta(m).num_values = [i64::MAX, i64::MIN, 0, -1][n]; m.row_groups[0].num_rows = sx::i64(); }
        _ => { let s = &mut m.schema[leaf]; s.type_ = Some(tf::Type::FIXED_LEN_BYTE_ARRAY); s.type_length = Some([0, 1, 2, 12, 16, 17, i32::MAX / 8 + 1, i32::MAX, -1, i32::MIN][sx::choose(10)]); s.converted_type = Some([tf::ConvertedType::DECIMAL, tf::ConvertedType::INTERVAL, tf::ConvertedType::UTF8, tf::ConvertedType::INT_8][n]); s.precision = Some(5); s.scale = Some(2); }
    }
}
/// a header followed by a body
fn with_header(h: &tf::PageHeader, body: &[u8]) -> Vec<u8> {
    let mut f = vec![];
    h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut f)).unwrap();
    f.extend_from_slice(body);
    f
}
fn codec(k: usize) -> CompressionOptions {
    match k { 0 => CompressionOptions::Uncompressed, 1 => CompressionOptions::Snappy, 2 => CompressionOptions::Lz4Raw, 3 => CompressionOptions::Zstd(None), 4 => CompressionOptions::Gzip(None), _ => CompressionOptions::Brotli(BrotliLevel::try_new(0).ok()) }
}
fn pages_of(f: Vec<u8>, c: Compression, n: i64, max: usize) {
    let len = f.len();
    // (the state of a decompressor; the window of Brotli is up to 16 MiB)
    let len = match c { Compression::Uncompressed => len, Compression::Brotli => len + (1 << 17), _ => len + 2048 };
    guard();
    if c == Compression::Brotli { sx::alloc_limit(1 << 25, true); }
    let d = descriptor(PhysicalType::Int32, Repetition::Optional, 1, 1);
    let meta = PageMetaData::new(0, n, c, d);
    let it = PageReader::new_with_page_meta(Cursor::new(f.as_slice()), meta.clone(), Arc::new(|_, _| true), vec![], max);
    use_pages(it, len, false);
    bounded(len);
    // and without a copy per page
    let it = PageReader::new_with_page_meta(Cursor::new(f.as_slice()), meta, Arc::new(|_, _| true), vec![], max);
    let mut it = Decompressor::new(it, vec![]);
    let mut n = 0;
    while let Ok(Some(p)) = it.next() { use_page(p); n += 1; if n > len { sx::check(false, "pages without end"); return; } }
    bounded(len);
    sx::check(true, "");
}
harnesses! {
    // [kind, field, n]: any value in a field of the metadata of a file
    fn h_field() {
        let (b, mut m) = parts(sx::param(0));
        set(&mut m, sx::param(1), sx::param(2));
        let f = whole(b, &m);
        explore(&f);
        explore_async(&f);
    }
    // [kind, position from the end]: any byte in a file
    fn h_byte() {
        let (b, m) = parts(sx::param(0));
        let mut f = whole(b, &m);
        let at = sx::param(1);
        if at >= f.len() { return sx::check(true, ""); }
        let i = f.len() - 1 - at;
        f[i] = sx::u8();
        explore(&f);
        explore_async(&f);
    }
    // [n]: any bytes as the metadata
    fn h_any() {
        let mut f = b"PAR1".to_vec();
        let n = sx::param(0);
        f.extend_from_slice(&sx::bytes(n));
        f.extend_from_slice(&(n as u32).to_le_bytes());
        f.extend_from_slice(b"PAR1");
        explore(&f);
    }
    // [n]: any bytes as a whole short file, as the end of a longer one
    fn h_file() {
        let n = sx::param(0);
        let mut f = vec![0; n.max(12) - 12];
        f.extend_from_slice(&sx::bytes(n.min(12)));
        // (the metadata, when there is any, is of zeros)
        if n >= 12 { for i in 0..4 { f[n - 12 + i] = 0; } }
        explore(&f);
        explore_async(&f);
    }
    // [kind, how many bytes are missing]
    fn h_cut() {
        let (b, m) = parts(sx::param(0));
        let f = whole(b, &m);
        let n = f.len();
        let cut = sx::param(1).min(n);
        explore(&f[..n - cut]);
        explore(&f[cut..]);
    }
    // [length]: any length of the metadata
    fn h_length() {
        let (b, m) = parts(0);
        let mut f = whole(b, &m);
        let n = f.len();
        f[n - 8..n - 4].copy_from_slice(&sx::u32().to_le_bytes());
        explore(&f);
    }
    // [kind, row, n, codec]: any value in a field of the header of a page
    fn h_header() {
        let (kind, field, n, k) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
        let data: Vec<u8> = vec![2, 0, 0, 0, 8, 1, 2, 0, 0, 0, 6, 1, 1, 2, 3, 4];
        let levels = if kind == 1 { 5 } else { 0 };
        let mut body = vec![];
        if k == 0 { body = data.clone(); } else if compress(codec(k), &data[levels..], &mut body).is_err() { return sx::check(false, "compression"); }
        if kind == 1 && k != 0 { let z = body; body = data[..levels].to_vec(); body.extend_from_slice(&z); }
        let st = Some(TStats { max: None, min: None, null_count: Some(1), distinct_count: None, max_value: Some(vec![0; 4]), min_value: Some(vec![0; 4]) });
        let mut h = tf::PageHeader { type_: tf::PageType([0, 3, 2][kind] as i32), uncompressed_page_size: data.len() as i32, compressed_page_size: body.len() as i32, crc: None, data_page_header: None, index_page_header: None, dictionary_page_header: None, data_page_header_v2: None };
        match kind {
            0 => h.data_page_header = Some(tf::DataPageHeader { num_values: 2, encoding: tf::Encoding::PLAIN, definition_level_encoding: tf::Encoding::RLE, repetition_level_encoding: tf::Encoding::RLE, statistics: st }),
            1 => h.data_page_header_v2 = Some(tf::DataPageHeaderV2 { num_values: 2, num_nulls: 1, num_rows: 2, encoding: tf::Encoding::PLAIN, definition_levels_byte_length: 3, repetition_levels_byte_length: 2, is_compressed: None, statistics: st }),
            _ => h.dictionary_page_header = Some(tf::DictionaryPageHeader { num_values: 2, encoding: tf::Encoding::PLAIN, is_sorted: None }),
        }
        match field {
            0 => h.type_ = tf::PageType(sx::i32()),
            1 => h.uncompressed_page_size = size(),
            2 => h.compressed_page_size = size(),
            3 => h.crc = Some(sx::i32()),
            4 => match kind { 0 => h.data_page_header.as_mut().unwrap().num_values = sx::i32(), 1 => h.data_page_header_v2.as_mut().unwrap().num_values = sx::i32(), _ => h.dictionary_page_header.as_mut().unwrap().num_values = sx::i32() },
            5 => match kind { 0 => h.data_page_header.as_mut().unwrap().encoding = tf::Encoding(sx::i32()), 1 => h.data_page_header_v2.as_mut().unwrap().encoding = tf::Encoding(sx::i32()), _ => h.dictionary_page_header.as_mut().unwrap().encoding = tf::Encoding(sx::i32()) },
            6 => match kind { 0 => h.data_page_header.as_mut().unwrap().definition_level_encoding = tf::Encoding(sx::i32()), 1 => h.data_page_header_v2.as_mut().unwrap().definition_levels_byte_length = sx::i32(), _ => h.dictionary_page_header = None },
            7 => match kind { 0 => h.data_page_header.as_mut().unwrap().repetition_level_encoding = tf::Encoding(sx::i32()), 1 => h.data_page_header_v2.as_mut().unwrap().repetition_levels_byte_length = sx::i32(), _ => h.data_page_header = Some(tf::DataPageHeader { num_values: sx::i32(), encoding: tf::Encoding::PLAIN, definition_level_encoding: tf::Encoding::RLE, repetition_level_encoding: tf::Encoding::RLE, statistics: None }) },
            8 => match kind { 0 => h.data_page_header.as_mut().unwrap().statistics = Some(TStats { max: None, min: None, null_count: Some(sx::i64()), distinct_count: Some(sx::i64()), max_value: Some(sx::bytes(n)), min_value: None }), 1 => { let h = h.data_page_header_v2.as_mut().unwrap(); h.num_rows = sx::i32(); h.num_nulls = sx::i32(); } _ => h.type_ = tf::PageType(1) },
            9 => match kind { 1 => { let h = h.data_page_header_v2.as_mut().unwrap(); h.definition_levels_byte_length = sx::i32(); h.repetition_levels_byte_length = [i32::MAX, 0, -1, i32::MIN, 16][n]; } 0 => h.data_page_header = None, _ => {} },
            10 => { h.uncompressed_page_size = size(); h.compressed_page_size = [0, 1, 15, 17][n]; }
            11 => { let x = size(); h.uncompressed_page_size = x; h.compressed_page_size = x; }
            _ => { if kind == 1 { let h = h.data_page_header_v2.as_mut().unwrap(); h.is_compressed = Some(n == 1); h.definition_levels_byte_length = sx::i32(); } h.uncompressed_page_size = [0, 2, 16, 18][n]; }
        }
        let mut f = with_header(&h, &body);
        // another page comes after it
        f.extend_from_slice(&with_header(&tf::PageHeader { type_: tf::PageType(2), uncompressed_page_size: 1, compressed_page_size: 1, crc: None, data_page_header: None, index_page_header: None, dictionary_page_header: Some(tf::DictionaryPageHeader { num_values: 1, encoding: tf::Encoding::PLAIN, is_sorted: None }), data_page_header_v2: None }, &[7]));
        pages_of(f, codec(k).into(), i64::MAX, PAGE);
    }
    // [n, tail]: any bytes as the pages of a chunk
    fn h_pages_any() {
        let mut f = sx::bytes(sx::param(0));
        f.extend_from_slice(&[1, 21, 4, 21, 4, 44, 0, 0, 0, 0, 0, 0][..sx::param(1)]);
        pages_of(f, Compression::Uncompressed, 5, PAGE);
    }
    // [version, n, codec]: a page of any bytes, any of them declared
    fn h_body() {
        let (v2, n, k) = (sx::param(0) == 1, sx::param(1), sx::param(2));
        let body = sx::bytes(n);
        let mut h = tf::PageHeader { type_: tf::PageType(0), uncompressed_page_size: 6, compressed_page_size: n as i32, crc: None, data_page_header: None, index_page_header: None, dictionary_page_header: None, data_page_header_v2: None };
        if v2 {
            h.type_ = tf::PageType(3);
            h.data_page_header_v2 = Some(tf::DataPageHeaderV2 { num_values: 2, num_nulls: 0, num_rows: 2, encoding: tf::Encoding::PLAIN, definition_levels_byte_length: 1, repetition_levels_byte_length: 1, is_compressed: None, statistics: None });
        } else {
            h.data_page_header = Some(tf::DataPageHeader { num_values: 2, encoding: tf::Encoding::PLAIN, definition_level_encoding: tf::Encoding::RLE, repetition_level_encoding: tf::Encoding::RLE, statistics: None });
        }
        pages_of(with_header(&h, &body), codec(k).into(), 2, PAGE);
    }
    // [field, n]: any location of a page
    fn h_location() {
        let (b, m) = parts(0);
        let f = whole(b, &m);
        let m = read_metadata(&mut Cursor::new(&f)).unwrap();
        let c = &m.row_groups[0].columns()[0];
        let mut l = read_pages_locations(&mut Cursor::new(&f), m.row_groups[0].columns()).unwrap().remove(0);
        sx::check(l.len() == 2, "two pages");
        let n = sx::param(1);
        let mut rows = m.row_groups[0].num_rows();
        match sx::param(0) {
            0 => l[0].offset = place(n),
            1 => l[1].offset = place(n),
            2 => l[0].compressed_page_size = sx::i32(),
            3 => l[1].compressed_page_size = sx::i32(),
            4 => l[0].first_row_index = sx::i64(),
            5 => l[1].first_row_index = sx::i64(),
            6 => { l[0].first_row_index = sx::i64(); l[1].first_row_index = sx::i64(); }
            7 => rows = sx::usize(),
            8 => { l[1].first_row_index = sx::i64(); rows = sx::usize(); }
            _ => { l[0].offset = place(n); l[0].compressed_page_size = [0, 1, -1, i32::MAX][sx::choose(4)]; }
        }
        guard();
        use_locations(&f, &l, rows, c);
        bounded_located(f.len());
    }
    // [type, n]: any bytes as the column index and the offset index of a chunk
    fn h_index_any() {
        let k = sx::param(0);
        let t = [PhysicalType::Int32, PhysicalType::Boolean, PhysicalType::ByteArray, PhysicalType::FixedLenByteArray(2), PhysicalType::Int96][k];
        let n = sx::param(1);
        let f = sx::bytes(n);
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", t, Repetition::Optional)]);
        let c = ColumnChunkMetaData::new(tf::ColumnChunk { file_path: None, file_offset: 0, meta_data: None, offset_index_offset: Some(0), offset_index_length: Some(n as i32), column_index_offset: Some(0), column_index_length: Some(n as i32), crypto_metadata: None, encrypted_column_metadata: None }, s.columns()[0].clone());
        guard();
        if sx::param(2) == 0 { let _ = read_columns_indexes(&mut Cursor::new(&f), &[c]).is_ok(); } else { let _ = read_pages_locations(&mut Cursor::new(&f), &[c]).is_ok(); }
        bounded(n);
    }
    // [which, m, w]: any length declared for a list or for bytes, of which m follow
    fn h_claim() {
        let (k, m) = (sx::param(0), sx::param(1));
        let schema = [0x15, 2, 0x19, 0x1c, 0x48, 1, b'r', 0x15, 0, 0, 0x16, 0];
        let page = [0x15, 0, 0x15, 2, 0x15, 2, 0x2c, 0x15, 2, 0x15, 0, 0x15, 6, 0x15, 6];
        let cat = |a: &[u8], b: &[u8]| { let mut v = a.to_vec(); v.extend_from_slice(b); v };
        let mut f: Vec<u8> = match k {
            0 => vec![0x15, 2, 0x19, 0xfc],
            1 => vec![0x15, 2, 0x19, 0x1c, 0x48],
            2 => cat(&schema, &[0x19, 0xfc]),
            3 => cat(&schema, &[0x19, 0x0c, 0x19, 0xfc]),
            4 => cat(&schema, &[0x19, 0x0c, 0x28]),
            5 => cat(&schema, &[0x19, 0x0c, 0x39, 0xfc]),
            6 => cat(&schema, &[0x19, 0x1c, 0x19, 0xfc]),
            7 => cat(&schema, &[0x19, 0x1c, 0x19, 0x1c, 0x18]),
            8 => cat(&schema, &[0x19, 0x1c, 0x19, 0x1c, 0x3c, 0x15, 2, 0x19, 0xf5]),
            9 => cat(&schema, &[0x19, 0x1c, 0x19, 0x1c, 0x3c, 0x15, 2, 0x19, 0x05, 0x19, 0xf8]),
            10 => cat(&schema, &[0x19, 0x0c, 0xc9, 0xfc]),
            11 => cat(&schema, &[0x19, 0x0c, 0xc8]),
            12 => cat(&schema, &[0x19, 0x0c, 0xcb]),
            20 | 24 => cat(&page, &[0x1c, 0x18]),
            21 | 25 => cat(&page, &[0x1c, 0x58]),
            22 | 26 => vec![0x15, 0, 0x15, 2, 0x15, 2, 0xc9, 0xfc],
            23 | 27 => vec![0x15, 0, 0x15, 2, 0x15, 2, 0xc8],
            30 => vec![0x19, 0xf1],
            31 => vec![0x19, 0x11, 1, 0x19, 0xf8],
            32 => vec![0x19, 0x11, 1, 0x19, 0x18],
            33 => vec![0x19, 0x11, 1, 0x19, 0x18, 0, 0x19, 0x18, 0, 0x15, 0, 0x19, 0xf6],
            34 => vec![0x19, 0xfc],
            _ => vec![0x1c, 0x1c, 0x18],
        };
        varint(&mut f, sx::param(2));
        f.extend_from_slice(&vec![0; m]);
        let n = f.len();
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
        let c = |p: usize| ColumnChunkMetaData::new(tf::ColumnChunk { file_path: None, file_offset: 0, meta_data: Some(tf::ColumnMetaData { type_: tf::Type::INT32, encodings: vec![], path_in_schema: vec![], codec: tf::CompressionCodec::UNCOMPRESSED, num_values: 3, total_uncompressed_size: 0, total_compressed_size: 0, key_value_metadata: None, data_page_offset: p as i64, index_page_offset: None, dictionary_page_offset: None, statistics: None, encoding_stats: None, bloom_filter_offset: Some(0) }), offset_index_offset: Some(0), offset_index_length: Some(n as i32), column_index_offset: Some(0), column_index_length: Some(n as i32), crypto_metadata: None, encrypted_column_metadata: None }, s.columns()[0].clone());
        if k < 20 {
            f.extend_from_slice(&(n as u32).to_le_bytes());
            f.extend_from_slice(b"PAR1");
            explore(&f);
        } else if k < 24 {
            pages_of(f, Compression::Uncompressed, 3, 64);
        } else if k < 30 {
            guard();
            use_locations(&f, &[tf::PageLocation { offset: 0, compressed_page_size: n as i32, first_row_index: 0 }], 3, &c(0));
            bounded_located(n);
        } else if k < 34 {
            guard();
            let _ = read_columns_indexes(&mut Cursor::new(&f), &[c(0)]).is_ok();
            bounded(n);
        } else if k == 34 {
            guard();
            let _ = read_pages_locations(&mut Cursor::new(&f), &[c(0)]).is_ok();
            bounded(n);
        } else {
            guard();
            let _ = bloom_filter::read(&c(0), &mut Cursor::new(&f), &mut vec![]).is_ok();
            bounded(n);
        }
    }
    // [n, w]: a bloom filter of any declared length
    fn h_bloom() {
        let mut f = vec![0x15];
        varint(&mut f, sx::param(1));
        f.extend_from_slice(&[0x1c, 0x1c, 0, 0, 0x1c, 0x1c, 0, 0, 0x1c, 0x1c, 0, 0, 0]);
        f.extend_from_slice(&vec![1; sx::param(0)]);
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
        let c = ColumnChunkMetaData::new(tf::ColumnChunk { file_path: None, file_offset: 0, meta_data: Some(tf::ColumnMetaData { type_: tf::Type::INT32, encodings: vec![], path_in_schema: vec![], codec: tf::CompressionCodec::UNCOMPRESSED, num_values: 3, total_uncompressed_size: 0, total_compressed_size: 0, key_value_metadata: None, data_page_offset: 0, index_page_offset: None, dictionary_page_offset: None, statistics: None, encoding_stats: None, bloom_filter_offset: Some(0) }), offset_index_offset: None, offset_index_length: None, column_index_offset: None, column_index_length: None, crypto_metadata: None, encrypted_column_metadata: None }, s.columns()[0].clone());
        guard();
        let mut b = vec![];
        if bloom_filter::read(&c, &mut Cursor::new(&f), &mut b).is_ok() { sx::check(b.len() <= f.len(), "larger than the source"); sx::reach("declared bloom filter"); }
        bounded(f.len());
    }
    // [k]: a schema of k elements with any numbers of children
    fn h_children() {
        let k = sx::param(0);
        let (_, mut m) = parts(0);
        let leaf = m.schema[1].clone();
        m.schema = (0..k).map(|_| { let mut l = leaf.clone(); if sx::flag() { l.type_ = None; } l.num_children = if sx::flag() { None } else { Some(sx::i32()) }; l }).collect();
        m.row_groups.clear();
        explore(&whole(b"PAR1".to_vec(), &m));
    }
    // [shape, n]: many columns, or a column in many groups
    fn h_wide() {
        let (shape, n) = (sx::param(0), sx::param(1));
        let i32s = |n: usize| (0..n).map(|_| leaf("a", PhysicalType::Int32, Repetition::Optional)).collect::<Vec<_>>();
        let fields = match shape {
            0 => i32s(n),
            1 => (0..n).fold(i32s(1), |f, _| vec![group("g", Repetition::Optional, f)]),
            // a group of many fields
            _ => vec![group("g", Repetition::Optional, i32s(n))],
        };
        let s = SchemaDescriptor::new("s".to_string(), fields);
        let (f, _, _) = write(Cursor::new(vec![]), &s, options(false, false), None, &[], None).unwrap();
        let f = f.into_inner();
        // (some of the name is free)
        let mut f = f;
        let at = f.len() - 10;
        f[at] = sx::u8();
        explore(&f);
        sx::reach("wide");
    }
    // known: the size of a located page once decompressed has no limit
    fn h_known_located() {
        let h = tf::PageHeader { type_: tf::PageType(0), uncompressed_page_size: sx::param(0) as i32, compressed_page_size: 3, crc: None, data_page_header: Some(tf::DataPageHeader { num_values: 2, encoding: tf::Encoding::PLAIN, definition_level_encoding: tf::Encoding::RLE, repetition_level_encoding: tf::Encoding::RLE, statistics: None }), index_page_header: None, dictionary_page_header: None, data_page_header_v2: None };
        let f = with_header(&h, &[1, 0, 0]);
        let meta = PageMetaData::new(0, 2, Compression::Snappy, descriptor(PhysicalType::Int32, Repetition::Optional, 1, 0));
        let p = select_pages(&[Interval::new(0, 2)], &[tf::PageLocation { offset: 0, compressed_page_size: f.len() as i32, first_row_index: 0 }], 2).unwrap();
        guard();
        for p in IndexedPageReader::new_with_page_meta(Cursor::new(&f), meta, p, vec![], vec![]) {
            if let Ok(p) = p { let _ = decompress(p, &mut vec![]).is_ok(); }
        }
        bounded_located(f.len());
    }
}
