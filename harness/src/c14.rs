use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::compression::Compression;
use parquet2::encoding::Encoding;
use parquet2::metadata::{ColumnChunkMetaData, ColumnDescriptor, Descriptor};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as tf;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::io::{Cursor, Read, Seek};
use std::sync::Arc;

fn desc() -> Descriptor { descriptor(PhysicalType::Int64, Repetition::Optional, 1, 0) }
fn blank_header(t: i32, size: i32) -> tf::PageHeader {
    tf::PageHeader { type_: tf::PageType(t), uncompressed_page_size: size, compressed_page_size: size, crc: None, data_page_header: None, index_page_header: None, dictionary_page_header: None, data_page_header_v2: None }
}
fn head(s: &Spec) -> tf::PageHeader {
    match s {
        Spec::Dict { buf, n, sorted } => {
            let mut h = blank_header(2, buf.len() as i32);
            h.dictionary_page_header = Some(tf::DictionaryPageHeader { num_values: *n as i32, encoding: Encoding::Plain.into(), is_sorted: Some(*sorted) });
            h
        }
        Spec::Data { header: DataPageHeader::V1(x), buf, .. } => {
            let mut h = blank_header(0, buf.len() as i32);
            h.data_page_header = Some(x.clone());
            h
        }
        Spec::Data { header: DataPageHeader::V2(x), buf, .. } => {
            let mut h = blank_header(3, buf.len() as i32);
            h.data_page_header_v2 = Some(x.clone());
            h
        }
    }
}
fn put(f: &mut Vec<u8>, h: &tf::PageHeader, body: &[u8]) {
    h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut *f)).unwrap();
    f.extend_from_slice(body);
}
fn body(s: &Spec) -> &Vec<u8> { match s { Spec::Dict { buf, .. } | Spec::Data { buf, .. } => buf } }
fn count(s: &Spec) -> i64 { match s { Spec::Data { header, .. } => values(header), _ => 0 } }
fn meta(total: i64) -> PageMetaData { PageMetaData::new(0, total, Compression::Uncompressed, desc()) }
/// a chunk of three arbitrary pages out of eight shapes
fn pages(code: usize, k: usize) -> Vec<Spec> {
    let mut v = vec![];
    let mut c = code;
    for i in 0..k {
        v.push(match c % 4 {
            0 => column(1, false, 2 * i, 0).remove(0),
            1 => column(1, false, 2 * i + 1, 0).remove(0),
            2 => Spec::Dict { buf: sx::bytes(i + 1), n: some(), sorted: i % 2 == 0 },
            // no values and no bytes
            _ => Spec::Data { header: header_v2(0, 0, Encoding::Plain, 0, 0), buf: vec![], rows: None },
        });
        c /= 4;
    }
    v
}
/// gives bytes from a position, one call at a time
struct Reader<'a> { f: &'a [u8], at: usize }
impl<'a> Read for Reader<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.f.len() - self.at);
        b[..n].copy_from_slice(&self.f[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}
fn keep(how: usize, h: &DataPageHeader) -> bool {
    match how {
        0 => true,
        1 => false,
        2 => values(h) & 2 == 2,
        _ => matches!(h, DataPageHeader::V2(_)),
    }
}
fn scratch(k: usize) -> Vec<u8> { match k % 3 { 0 => vec![], 1 => vec![9; 2], _ => vec![5; 100] } }

harnesses! {
    // [code, k, filter, exact?, scratch, dictionary offset, prefix]: the pages of a chunk through get_page_iterator
    fn h_pages() {
        let v = pages(sx::param(0), sx::param(1));
        let how = sx::param(2);
        let mut f = vec![7u8; sx::param(5)];
        let mut ends = vec![];
        for p in &v { put(&mut f, &head(p), body(p)); ends.push(f.len()); }
        f.extend_from_slice(&[0xff; 20]);
        let all: i64 = v.iter().map(count).sum();
        let total = if sx::param(3) == 0 { all } else { let t = sx::i64(); sx::assume(t <= all && t >= 0); t };
        let m = tf::ColumnMetaData {
            type_: tf::Type(2), encodings: vec![], path_in_schema: vec![], codec: tf::CompressionCodec(0), num_values: total, total_uncompressed_size: 0, total_compressed_size: 0,
            key_value_metadata: None, data_page_offset: if sx::param(6) == 1 { 1 << 40 } else { sx::param(5) as i64 }, index_page_offset: None,
            dictionary_page_offset: if sx::param(6) == 1 { Some(sx::param(5) as i64) } else { None }, statistics: None, encoding_stats: None, bloom_filter_offset: None };
        let cc = tf::ColumnChunk { file_path: None, file_offset: 3, meta_data: Some(m), offset_index_offset: None, offset_index_length: None, column_index_offset: None, column_index_length: None, crypto_metadata: None, encrypted_column_metadata: None };
        let d = desc();
        let c = ColumnChunkMetaData::new(cc, ColumnDescriptor::new(d.clone(), vec!["a".to_string()], ParquetType::PrimitiveType(d.primitive_type.clone())));
        let want = d.clone();
        let filter: Option<PageFilter> = if how == 0 { None } else {
            Some(Arc::new(move |x: &Descriptor, h: &DataPageHeader| { sx::check(*x == want, "descriptor given to the filter"); keep(how, h) }))
        };
        let mut it = match get_page_iterator(&c, Cursor::new(&f), filter, scratch(sx::param(4)), 1 << 10) {
            Ok(it) => it,
            Err(_) => return sx::check(false, "position of the chunk"),
        };
        let mut seen = 0;
        let mut at = sx::param(5);
        let mut spare = scratch(sx::param(4) + 1);
        for (p, e) in v.iter().zip(&ends) {
            if seen >= total { break; }
            seen += count(p);
            at = *e;
            if let Spec::Data { header, .. } = p { if !keep(how, header) { sx::reach("filtered"); continue; } }
            match it.next() {
                Some(Ok(x)) => {
                    if let CompressedPage::Data(x) = &x { sx::check(x.selected_rows().is_none(), "selected rows"); }
                    check_page(x, p, &d);
                    sx::reach("page");
                }
                _ => return sx::check(false, "page is not delivered"),
            }
            it.swap_buffer(&mut spare);
        }
        for _ in 0..2 { sx::check(it.next().is_none(), "no more pages"); }
        let (r, _) = it.into_inner();
        sx::check(r.position() == at as u64, "position after the last page");
        sx::reach("end");
    }
    // [0: not stated, 1: not sorted, 2: sorted]: a dictionary is sorted when its header says so
    fn h_sorted() {
        let k = sx::param(0);
        let mut h = blank_header(2, 2);
        h.dictionary_page_header = Some(tf::DictionaryPageHeader { num_values: 1, encoding: Encoding::Plain.into(), is_sorted: if k == 0 { None } else { Some(k == 2) } });
        let mut f = vec![];
        let b = sx::bytes(2);
        put(&mut f, &h, &b);
        let want = Spec::Dict { buf: b, n: 1, sorted: k == 2 };
        let mut it = PageReader::new_with_page_meta(Cursor::new(&f), meta(1), Arc::new(|_, _| true), vec![], 1 << 10);
        match it.next() {
            Some(Ok(x)) => { check_page(x, &want, &desc()); sx::reach("dictionary"); }
            _ => sx::check(false, "page is not delivered"),
        }
    }
    // [code, k, cut per page?]: a chunk cut anywhere: whole pages, then an error, then nothing
    fn h_cut() {
        let v = pages(sx::param(0), sx::param(1));
        let mut f = vec![];
        let mut ends = vec![];
        for p in &v { put(&mut f, &head(p), body(p)); ends.push(f.len()); }
        let total: i64 = v.iter().map(count).sum::<i64>() + 1;
        for cut in 0..=f.len() {
            let mut it = PageReader::new_with_page_meta(Reader { f: &f[..cut], at: 0 }, meta(total), Arc::new(|_, _| true), scratch(cut), 1 << 10);
            for (p, e) in v.iter().zip(&ends) {
                if *e > cut { break; }
                match it.next() {
                    Some(Ok(x)) => check_page(x, p, &desc()),
                    _ => return sx::check(false, "whole page is not delivered"),
                }
                sx::reach("whole page");
            }
            sx::check(matches!(it.next(), Some(Err(_))), "cut page");
            for _ in 0..2 { sx::check(it.next().is_none(), "nothing after an error"); }
            sx::reach("cut");
        }
    }
    // [kind, field, limit, available]: sizes of the page with any value
    fn h_sizes() {
        let max = sx::param(2);
        let b = sx::bytes(sx::param(3));
        let s = match sx::param(0) {
            0 => Spec::Data { header: v1(1, Encoding::Plain, Encoding::Rle, Encoding::Rle), buf: vec![], rows: None },
            1 => Spec::Data { header: header_v2(1, 1, Encoding::Plain, 0, 0), buf: vec![], rows: None },
            _ => Spec::Dict { buf: vec![], n: 1, sorted: false },
        };
        let mut h = head(&s);
        let (mut c, mut u) = (b.len() as i32, b.len() as i32);
        if sx::param(1) != 1 { c = sx::i32(); }
        if sx::param(1) != 0 { u = sx::i32(); }
        h.compressed_page_size = c;
        h.uncompressed_page_size = u;
        let mut f = vec![];
        put(&mut f, &h, &b);
        let mut it = PageReader::new_with_page_meta(Reader { f: &f, at: 0 }, meta(2), Arc::new(|_, _| true), vec![1; 3], max);
        sx::alloc_limit(1 << 20, true);
        let good = (c >= 0) & (u >= 0) & (c as i64 <= max as i64) & (u as i64 <= max as i64) & (c as i64 <= b.len() as i64);
        match it.next() {
            Some(Ok(p)) => {
                sx::check(good, "wrong size is accepted");
                let (k, un, comp) = match &p { CompressedPage::Data(p) => (0, p.uncompressed_size(), p.compressed_size()), CompressedPage::Dict(_) => (1, u as usize, c as usize) };
                sx::check(k == (sx::param(0) == 2) as usize, "kind");
                sx::check((un == u as usize) & (comp == c as usize), "sizes");
                sx::reach("accepted");
                if let (CompressedPage::Data(p), true) = (p, sx::param(1) == 0) {
                    // the body is what follows the header
                    let mut o = vec![];
                    if let Ok(Page::Data(p)) = decompress(CompressedPage::Data(p), &mut o) {
                        let n = p.buffer().len().min(b.len());
                        sx::check(eq_bytes(&p.buffer()[..n], &b[..n]), "body");
                    }
                }
            }
            Some(Err(_)) => {
                sx::check(!good, "right size is refused");
                sx::check(it.next().is_none(), "nothing after an error");
                sx::reach("refused");
            }
            None => sx::check(false, "no page"),
        }
    }
    // [kind, field]: header fields with any value
    fn h_fields() {
        let x = sx::i32();
        let ok = [true, false, true, true, true, true, true, true, true, true];
        let enc = (x >= 0) & (x <= 9) & (x != 1);
        let _ = ok;
        let mut good = true;
        let mut data = true;
        let mut h = match sx::param(0) {
            0 => {
                let mut d = DataPageHeaderV1 { num_values: 3, encoding: tf::Encoding(0), definition_level_encoding: tf::Encoding(3), repetition_level_encoding: tf::Encoding(3), statistics: None };
                match sx::param(1) {
                    0 => { d.num_values = x; good = x >= 0; }
                    1 => { d.encoding = tf::Encoding(x); good = enc; }
                    2 => { d.definition_level_encoding = tf::Encoding(x); good = enc; }
                    3 => { d.repetition_level_encoding = tf::Encoding(x); good = enc; }
                    _ => {}
                }
                let mut h = blank_header(0, 2);
                if sx::param(1) != 4 { h.data_page_header = Some(d) } else { good = false }
                h
            }
            1 => {
                let mut d = DataPageHeaderV2 { num_values: 3, num_nulls: 1, num_rows: 2, encoding: tf::Encoding(0), definition_levels_byte_length: 0, repetition_levels_byte_length: 0, is_compressed: None, statistics: None };
                match sx::param(1) {
                    0 => { d.num_values = x; good = x >= 0; }
                    1 => { d.encoding = tf::Encoding(x); good = enc; }
                    2 => d.num_nulls = x,
                    3 => d.num_rows = x,
                    _ => {}
                }
                let mut h = blank_header(3, 2);
                if sx::param(1) != 4 { h.data_page_header_v2 = Some(d) } else { good = false }
                h
            }
            _ => {
                data = false;
                let mut h = blank_header(2, 2);
                if sx::param(1) != 4 { h.dictionary_page_header = Some(tf::DictionaryPageHeader { num_values: x, encoding: tf::Encoding(0), is_sorted: None }); good = x >= 0; } else { good = false }
                h
            }
        };
        if sx::param(1) == 5 {
            // the type disagrees with the header that follows
            h.type_ = tf::PageType(x);
            good = x == [0, 3, 2][sx::param(0)];
        }
        let b = sx::bytes(2);
        let mut f = vec![];
        put(&mut f, &h, &b);
        let mut it = PageReader::new_with_page_meta(Reader { f: &f, at: 0 }, meta(1), Arc::new(|_, _| true), vec![], 1 << 10);
        match it.next() {
            Some(Ok(p)) => {
                sx::check(good, "invalid header is accepted");
                match &p {
                    CompressedPage::Data(p) => {
                        sx::check(data, "kind");
                        match p.header() {
                            DataPageHeader::V1(d) => {
                                let w = h.data_page_header.as_ref().unwrap();
                                sx::check((d.num_values == w.num_values) & (d.encoding == w.encoding) & (d.definition_level_encoding == w.definition_level_encoding) & (d.repetition_level_encoding == w.repetition_level_encoding), "header");
                            }
                            DataPageHeader::V2(d) => {
                                let w = h.data_page_header_v2.as_ref().unwrap();
                                sx::check((d.num_values == w.num_values) & (d.encoding == w.encoding) & (d.num_nulls == w.num_nulls) & (d.num_rows == w.num_rows), "header");
                            }
                        }
                    }
                    CompressedPage::Dict(_) => sx::check(!data, "kind"),
                }
                if let Ok(Page::Dict(p)) = decompress(p, &mut vec![]) { sx::check(p.num_values as i64 == x as i64 || sx::param(1) == 5, "dictionary values"); }
                sx::reach("good header");
            }
            Some(Err(_)) => { sx::check(!good, "valid header is refused"); sx::check(it.next().is_none(), "nothing after an error"); sx::reach("bad header"); }
            None => sx::check(false, "no page"),
        }
    }
    // [dict?, version]: pages with statistics, which are part of the header
    fn h_stats() {
        let o = |k: usize| if sx::param(0) >> k & 1 == 1 { Some(sx::bytes(k + 1)) } else { None };
        let i = |k: usize| if sx::param(0) >> k & 1 == 1 { Some((sx::u32() >> 20) as i64) } else { None };
        let st = Some(TStats { max: o(0), min: o(1), null_count: i(2), distinct_count: i(3), max_value: o(4), min_value: o(5) });
        let mut d = if sx::param(1) == 1 { v1(2, Encoding::Plain, Encoding::Rle, Encoding::Rle) } else { header_v2(2, 2, Encoding::Plain, 0, 0) };
        match &mut d { DataPageHeader::V1(d) => d.statistics = st, DataPageHeader::V2(d) => { d.statistics = st; d.is_compressed = Some(sx::param(0) & 1 == 1); } }
        let s = Spec::Data { header: d, buf: sx::bytes(2), rows: None };
        let mut f = vec![];
        let mut h = head(&s);
        h.crc = Some(sx::i32() >> 20);
        put(&mut f, &h, body(&s));
        let mut it = PageReader::new_with_page_meta(Reader { f: &f, at: 0 }, meta(2), Arc::new(|_, _| true), vec![], 1 << 10);
        match it.next() {
            Some(Ok(p)) => { check_page(p, &s, &desc()); sx::reach("statistics"); }
            _ => sx::check(false, "page with statistics"),
        }
        sx::check(it.next().is_none(), "end");
    }
}
