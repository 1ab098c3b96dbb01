use crate::aio::*;
use crate::files::*;
use crate::util::*;
use crate::work::Out;
use crate::{harnesses, sx};
use futures::StreamExt;
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::metadata::{ColumnChunkMetaData, ColumnDescriptor, Descriptor};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as tf;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::sync::Arc;

fn desc() -> Descriptor { descriptor(PhysicalType::Int64, Repetition::Optional, 1, 0) }
fn blank_header(t: i32, size: i32) -> tf::PageHeader {
    tf::PageHeader { type_: tf::PageType(t), uncompressed_page_size: size, compressed_page_size: size, crc: None, data_page_header: None, index_page_header: None, dictionary_page_header: None, data_page_header_v2: None }
}
fn head(s: &Spec) -> tf::PageHeader {
    match s {
        Spec::Dict { buf, n, sorted } => {
            let mut h = blank_header(2, buf.len() as i32);
            h.dictionary_page_header = Some(tf::DictionaryPageHeader { num_values: *n as i32, encoding: Encoding::Plain.into(), is_sorted: Some(*sorted) });
            h
        }
        Spec::Data { header: DataPageHeader::V1(x), buf, .. } => {
            let mut h = blank_header(0, buf.len() as i32);
            h.data_page_header = Some(x.clone());
            h
        }
        Spec::Data { header: DataPageHeader::V2(x), buf, .. } => {
            let mut h = blank_header(3, buf.len() as i32);
            h.data_page_header_v2 = Some(x.clone());
            h
        }
    }
}
fn put(f: &mut Vec<u8>, h: &tf::PageHeader, body: &[u8]) {
    h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut *f)).unwrap();
    f.extend_from_slice(body);
}
fn body(s: &Spec) -> &Vec<u8> { match s { Spec::Dict { buf, .. } | Spec::Data { buf, .. } => buf } }
fn count(s: &Spec) -> i64 { match s { Spec::Data { header, .. } => values(header), _ => 0 } }
fn chunk(total: i64, at: i64, codec: i32, bytes: i64) -> ColumnChunkMetaData {
    let m = tf::ColumnMetaData {
        type_: tf::Type(2), encodings: vec![], path_in_schema: vec![], codec: tf::CompressionCodec(codec), num_values: total, total_uncompressed_size: 0, total_compressed_size: bytes,
        key_value_metadata: None, data_page_offset: at, index_page_offset: None, dictionary_page_offset: None, statistics: None, encoding_stats: None, bloom_filter_offset: None };
    let cc = tf::ColumnChunk { file_path: None, file_offset: 3, meta_data: Some(m), offset_index_offset: None, offset_index_length: None, column_index_offset: None, column_index_length: None, crypto_metadata: None, encrypted_column_metadata: None };
    let d = desc();
    ColumnChunkMetaData::new(cc, ColumnDescriptor::new(d.clone(), vec!["a".to_string()], ParquetType::PrimitiveType(d.primitive_type.clone())))
}
/// a chunk of three arbitrary pages out of eight shapes
fn pages(code: usize, k: usize) -> Vec<Spec> {
    let mut v = vec![];
    let mut c = code;
    for i in 0..k {
        v.push(match c % 4 {
            0 => column(1, false, 2 * i, 0).remove(0),
            1 => column(1, false, 2 * i + 1, 0).remove(0),
            2 => Spec::Dict { buf: sx::bytes(i + 1), n: some(), sorted: i % 2 == 0 },
            // no values and no bytes
            _ => Spec::Data { header: header_v2(0, 0, Encoding::Plain, 0, 0), buf: vec![], rows: None },
        });
        c /= 4;
    }
    v
}

fn keep(how: usize) -> PageFilter {
    Arc::new(move |_: &Descriptor, h: &DataPageHeader| match how { 0 => true, 1 => false, 2 => values(h) & 2 == 2, _ => matches!(h, DataPageHeader::V2(_)) })
}
fn direct(f: &[u8], c: &ColumnChunkMetaData, how: usize, max: usize) -> Out {
    let mut io = Io::new(f.to_vec());
    let mut o = Out::default();
    let r = (|| -> Result<(), Error> {
        let mut it = get_page_iterator(c, &mut io, Some(keep(how)), vec![4; 2], max)?;
        let mut n = 0;
        while let Some(p) = it.next() { o.page(p?); n += 1; if n > 8 { break; } }
        Ok(())
    })();
    o.done(r)
}
/// from the start of the chunk or from anywhere
fn stream(f: &[u8], c: &ColumnChunkMetaData, how: usize, max: usize, split: usize, pend: usize, start: bool) -> Out {
    let mut io = Io::split(f.to_vec(), split, pend);
    let mut o = Out::default();
    let r = block_on(async {
        let mut n = 0;
        if start {
            io.at = c.byte_range().0;
            let s = get_page_stream_from_column_start(c, &mut io, vec![], keep(how), max).await?;
            let mut s = std::pin::pin!(s);
            while let Some(p) = s.next().await { o.page(p?); n += 1; if n > 8 { break; } }
        } else {
            io.at = 3;
            let s = get_page_stream(c, &mut io, vec![1; 7], keep(how), max).await?;
            let mut s = std::pin::pin!(s);
            while let Some(p) = s.next().await { o.page(p?); n += 1; if n > 8 { break; } }
        }
        Ok::<_, Error>(())
    });
    o.done(r)
}
fn agree(a: &Out, b: &Out) {
    sx::check(a.err == b.err, "only one of the readers fails");
    let mut ok = a.v.len() == b.v.len();
    if ok { for i in 0..a.v.len() { ok &= a.v[i] == b.v[i]; } }
    sx::check(ok, "pages differ");
    if a.err { sx::reach("failed"); } else { sx::reach("read"); }
}
fn both(f: &[u8], c: &ColumnChunkMetaData, how: usize, max: usize, split: usize, pend: usize) {
    let a = direct(f, c, how, max);
    agree(&a, &stream(f, c, how, max, split, pend, false));
    agree(&a, &stream(f, c, how, max, split, pend, true));
}
fn metadata_both(f: &[u8], split: usize, pend: usize) {
    let mut a = Out::default();
    let r = read_metadata(&mut Io::new(f.to_vec())).map(|m| a.meta(m));
    let a = a.done(r);
    let mut b = Out::default();
    let mut io = Io::split(f.to_vec(), split, pend);
    if split % 2 == 0 { io.at = 2; }
    let r = block_on(read_metadata_async(&mut io)).map(|m| b.meta(m));
    let b = b.done(r);
    agree(&a, &b);
}
fn file(k: usize) -> Vec<u8> {
    let s = schema(k);
    let g: Vec<Group> = (0..k.min(1)).map(|g| (0..s.columns().len()).map(|c| column(1, c == 1, g + c, 0)).collect()).collect();
    match write(std::io::Cursor::new(vec![]), &s, options(false, k == 2), Some("me".to_string()), &g, None) { Ok((f, _, _)) => f.into_inner(), Err(_) => vec![] }
}

harnesses! {
    // [code, k, filter, split, pend, flip]: whole chunks
    fn h_chunk() {
        let v = pages(sx::param(0), sx::param(1));
        let mut f = vec![7u8; sx::param(3)];
        for p in &v { put(&mut f, &head(p), body(p)); }
        f.extend_from_slice(&[0xff; 5]);
        both(&f, &chunk(v.iter().map(count).sum(), sx::param(3) as i64, 0, 0), sx::param(2), 1 << 10, sx::param(3), sx::param(4));
    }
    // [code, k, split]: any number of values, position and codec
    fn h_total() {
        let v = pages(sx::param(0), sx::param(1));
        let mut f = vec![];
        for p in &v { put(&mut f, &head(p), body(p)); }
        let (total, at, codec) = match sx::param(3) {
            0 => (sx::i64(), 0, 0),
            // beyond the file, or at the end of a page
            1 => { let at = sx::i64(); sx::assume(at >= f.len() as i64); (1, at, 0) }
            2 => (1, { let mut n = f.len(); while n + 2 > f.len() && n > 0 && !sx::bool() { n -= 1; } n as i64 }, 0),
            _ => (1, 0, 3) };
        both(&f, &chunk(total, at, codec, 0), 0, 1 << 10, sx::param(2), 0);
    }
    // [code, k, filter, split]: cut anywhere
    fn h_cut() {
        let v = pages(sx::param(0), sx::param(1));
        let mut f = vec![];
        for p in &v { put(&mut f, &head(p), body(p)); }
        let c = chunk(v.iter().map(count).sum(), 0, 0, 0);
        for cut in 0..f.len() { both(&f[..cut], &c, sx::param(2), 1 << 10, sx::param(3), 0); }
    }
    // [code, k, position, split]: any byte in place of one
    fn h_byte() {
        let v = pages(sx::param(0), sx::param(1));
        let mut f = vec![];
        for p in &v { put(&mut f, &head(p), body(p)); }
        if sx::param(2) >= f.len() { sx::check(true, ""); return; }
        f[sx::param(2)] = sx::u8();
        both(&f, &chunk(v.iter().map(count).sum(), 0, 0, 0), 0, 1 << 10, sx::param(3), 0);
    }
    // [bytes, split]: any bytes
    fn h_any() {
        let f = sx::bytes(sx::param(0));
        both(&f, &chunk(1, 0, 0, 0), 0, 1 << 10, sx::param(1), 0);
    }
    // [kind, field, available, limit]: any size, number or code
    fn h_fields() {
        let x = sx::i32();
        let s = match sx::param(0) {
            0 => Spec::Data { header: v1(1, Encoding::Plain, Encoding::Rle, Encoding::Rle), buf: vec![], rows: None },
            1 => Spec::Data { header: header_v2(1, 1, Encoding::Plain, 0, 0), buf: vec![], rows: None },
            _ => Spec::Dict { buf: vec![], n: 1, sorted: false },
        };
        let mut h = head(&s);
        let b = sx::bytes(sx::param(2));
        h.compressed_page_size = b.len() as i32;
        h.uncompressed_page_size = b.len() as i32;
        match sx::param(1) {
            0 => h.compressed_page_size = x,
            1 => h.uncompressed_page_size = x,
            2 => h.type_ = tf::PageType(x),
            3 => { if let Some(d) = &mut h.data_page_header { d.num_values = x; } if let Some(d) = &mut h.data_page_header_v2 { d.num_values = x; } if let Some(d) = &mut h.dictionary_page_header { d.num_values = x; } }
            4 => { if let Some(d) = &mut h.data_page_header { d.encoding = tf::Encoding(x); } if let Some(d) = &mut h.data_page_header_v2 { d.encoding = tf::Encoding(x); } if let Some(d) = &mut h.dictionary_page_header { d.encoding = tf::Encoding(x); } }
            5 => { if let Some(d) = &mut h.data_page_header { d.definition_level_encoding = tf::Encoding(x); } if let Some(d) = &mut h.data_page_header_v2 { d.num_nulls = x; } }
            6 => { if let Some(d) = &mut h.data_page_header { d.repetition_level_encoding = tf::Encoding(x); } if let Some(d) = &mut h.data_page_header_v2 { d.definition_levels_byte_length = x; } }
            7 => { h.data_page_header = None; h.data_page_header_v2 = None; h.dictionary_page_header = None; }
            _ => { h.crc = Some(x); }
        }
        let mut f = vec![];
        put(&mut f, &h, &b);
        sx::alloc_limit(1 << 20, true);
        both(&f, &chunk(1, 0, 0, 0), 0, sx::param(3), 0, 0);
    }
    // [limit, kind]: any limit of the size of pages (and of the memory of their headers)
    fn h_limit() {
        let mut h = v1(1, Encoding::Plain, Encoding::Rle, Encoding::Rle);
        if let DataPageHeader::V1(h) = &mut h { h.statistics = Some(TStats { max: None, min: None, null_count: None, distinct_count: None, max_value: Some(sx::bytes(3)), min_value: Some(sx::bytes(2)) }); }
        // larger than the memory of the header, which the two thrift readers do not count alike
        let s = Spec::Data { header: h, buf: sx::bytes(14), rows: None };
        let mut f = vec![];
        put(&mut f, &head(&s), body(&s));
        both(&f, &chunk(1, 0, 0, 0), 0, sx::u16() as usize, sx::param(0), 0);
    }
    // [file, split, pend, bytes before]: metadata of files
    fn h_meta() {
        let mut f = vec![1; sx::param(3)];
        f.extend_from_slice(&file(sx::param(0)));
        metadata_both(&f, sx::param(1), sx::param(2));
    }
    // [file, position from the end, split]: any byte in place of one
    fn h_meta_byte() {
        let mut f = file(sx::param(0));
        if sx::param(1) >= f.len() { sx::check(true, ""); return; }
        let n = f.len() - 1 - sx::param(1);
        f[n] = sx::u8();
        metadata_both(&f, sx::param(2), 0);
    }
    // [file, split, low]: any length of the metadata, out of the file or within 8 of the low one
    fn h_meta_len() {
        let mut f = file(sx::param(0));
        let n = f.len();
        let x = sx::i32();
        if sx::param(2) == 0 { sx::assume(x < 0 || x > n as i32 - 8); } else { sx::assume(x >= sx::param(2) as i32 && x < sx::param(2) as i32 + 8); }
        f[n - 8..n - 4].copy_from_slice(&x.to_le_bytes());
        sx::alloc_limit(1 << 20, true);
        metadata_both(&f, sx::param(1), 0);
    }
    // [file, split]: cut anywhere
    fn h_meta_cut() {
        let f = file(sx::param(0));
        for cut in 0..f.len() { metadata_both(&f[cut..], sx::param(1), 0); metadata_both(&f[..cut], sx::param(1), 0); }
    }
    // [bytes, split, 1 for a footer]: small files
    fn h_meta_any() {
        let mut f = sx::bytes(sx::param(0));
        if sx::param(2) == 1 { f.splice(0..0, *b"PAR1"); f.extend_from_slice(&(sx::param(0) as u32).to_le_bytes()); f.extend_from_slice(b"PAR1"); }
        metadata_both(&f, sx::param(1), 0);
    }
    // [size of the metadata beyond the first read, split]: metadata around the size of the first read
    fn h_meta_large() {
        let mut f = vec![0; 4];
        let mut m = parquet2::metadata::FileMetaData { version: 1, num_rows: 0, created_by: Some(String::new()), row_groups: vec![], key_value_metadata: None, schema_descr: schema(1), column_orders: None }.into_thrift();
        let mut probe = vec![];
        let n = m.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut probe)).unwrap();
        let want = 65536 - 8 + sx::param(0) - 4;
        let mut b = vec![b'x'; want - n - 2];
        b[0] = sx::u8() & 0x7f;
        m.created_by = Some(unsafe { String::from_utf8_unchecked(b) });
        let n = m.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut f)).unwrap();
        f.extend_from_slice(&(n as i32).to_le_bytes());
        f.extend_from_slice(b"PAR1");
        metadata_both(&f, sx::param(1), 0);
    }
    // [chunks, split, pend]: the chunks of a field, of any declared size
    fn h_columns() {
        let f = sx::bytes(12);
        let cs: Vec<_> = (0..sx::param(0)).map(|i| {
            let m = chunk(1, 2 * i as i64, 0, if sx::param(3) == 1 && i + 1 == sx::param(0) { let n = sx::i64(); sx::assume(n >= 0); n } else { some() as i64 }).into_thrift();
            let d = desc();
            ColumnChunkMetaData::new(m, ColumnDescriptor::new(d.clone(), vec![if i == 1 { "b".to_string() } else { "a".to_string() }, format!("x{i}")], ParquetType::PrimitiveType(d.primitive_type.clone())))
        }).collect();
        let mut a = Out::default();
        sx::alloc_limit(1 << 20, true);
        let r = (|| -> Result<(), Error> { for (c, b) in read_columns(&mut Io::new(f.clone()), &cs, "a")? { a.v.push(c.byte_range().0); a.bytes(&b); } Ok(()) })();
        let a = a.done(r);
        let mut b = Out::default();
        let (split, pend) = (sx::param(1), sx::param(2));
        let made = Io::split(f, split, pend);
        let factory = move || { let io = made.clone(); Box::pin(async move { Ok(io) }) as futures::future::BoxFuture<'static, std::io::Result<Io>> };
        let r = block_on(read_columns_async(factory, &cs, "a")).map(|v| for (c, x) in v { b.v.push(c.byte_range().0); b.bytes(&x); });
        let b = b.done(r);
        agree(&a, &b);
    }
}
