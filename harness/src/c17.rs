use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::compression::{BrotliLevel, Compression, CompressionOptions, GzipLevel, ZstdLevel};
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::indexes::Interval;
use parquet2::metadata::{Descriptor, SchemaDescriptor};
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::write::{compress, Compressor, DynIter, DynStreamingIterator, FileWriter};
use parquet2::FallibleStreamingIterator;
use parquet_format_safe as tf;

fn desc() -> Descriptor { descriptor(PhysicalType::Int64, Repetition::Optional, 1, 0) }
fn option(k: usize) -> CompressionOptions {
    match k {
        0 => CompressionOptions::Uncompressed,
        1 => CompressionOptions::Snappy,
        2 => CompressionOptions::Lz4Raw,
        3 => CompressionOptions::Zstd(ZstdLevel::try_new(7).ok()),
        4 => CompressionOptions::Gzip(GzipLevel::try_new(0).ok()),
        _ => CompressionOptions::Brotli(BrotliLevel::try_new(0).ok()),
    }
}
/// the kinds of pages: version 1, version 2 without and with levels, dictionary; odd ones of no values
fn page(kind: usize, n: usize, seed: usize) -> Spec {
    // gzip and Brotli: only single bytes are free
    let heavy = matches!(sx::param(0), 4 | 5);
    let free = |n: usize| if n > 20 || heavy && n != 1 { (0..n).map(|i| (i * 7 + seed) as u8).collect() } else { sx::bytes(n) };
    let m = if matches!(sx::param(0), 4 | 5) { 3 } else { some() };
    let rows = Some(m);
    match kind {
        0 => {
            let mut h = v1(some() as i32, Encoding::Plain, Encoding::Rle, Encoding::BitPacked);
            if let DataPageHeader::V1(h) = &mut h { h.statistics = Some(TStats { max: None, min: None, null_count: Some(some() as i64), distinct_count: None, max_value: Some(if heavy { vec![6; 8] } else { sx::bytes(8) }), min_value: None }); }
            Spec::Data { header: h, buf: free(n), rows }
        }
        1 => Spec::Data { header: header_v2(some() as i32, m as i32, Encoding::Plain, 0, 0), buf: free(n), rows },
        2 | 3 | 4 => {
            let (def, rep) = [(2, 1), (n as i32, 0), (0, 3)][kind - 2];
            let mut h = header_v2(some() as i32, m as i32, Encoding::DeltaByteArray, 0, 0);
            if let DataPageHeader::V2(h) = &mut h {
                h.definition_levels_byte_length = def;
                h.repetition_levels_byte_length = rep;
                h.is_compressed = [None, Some(false), Some(true)][seed % 3];
                h.num_nulls = few() as i32;
            }
            Spec::Data { header: h, buf: free(n.max((def + rep) as usize)), rows }
        }
        5 => Spec::Dict { buf: free(n), n: some(), sorted: true },
        _ => Spec::Dict { buf: vec![], n: 0, sorted: false },
    }
}
fn sequence(code: usize, k: usize, n: usize) -> Vec<Spec> {
    let mut c = code;
    (0..k).map(|i| {
        let s = page(c % 7, [n, 3, 0, 9][i % 4], i);
        c /= 7;
        s
    }).collect()
}
fn plain(s: &Spec, d: &Descriptor) -> Page {
    match s {
        Spec::Dict { buf, n, sorted } => Page::Dict(DictPage { buffer: buf.clone(), num_values: *n, is_sorted: *sorted }),
        Spec::Data { header, buf, rows } => Page::Data(DataPage::new(header.clone(), buf.clone(), d.clone(), *rows)),
    }
}
fn levels(h: &DataPageHeader) -> usize { match h { DataPageHeader::V2(h) => (h.definition_levels_byte_length + h.repetition_levels_byte_length) as usize, _ => 0 } }
fn headers(a: &DataPageHeader, b: &DataPageHeader) -> bool {
    let mut a = a.clone();
    if let (DataPageHeader::V2(a), DataPageHeader::V2(b)) = (&mut a, b) { a.is_compressed = b.is_compressed; }
    same_header(&a, b)
}
/// a page decompressed is the one described; those read from a file have no selected rows
fn restored(p: &Page, s: &Spec, d: &Descriptor, rows_kept: bool) {
    match (p, s) {
        (Page::Dict(p), Spec::Dict { buf, n, sorted }) => {
            sx::check(p.num_values == *n && p.is_sorted == *sorted, "dictionary header");
            sx::check(eq_bytes(&p.buffer, buf), "dictionary bytes");
            sx::reach("dictionary");
        }
        (Page::Data(p), Spec::Data { header, buf, rows }) => {
            sx::check(headers(p.header(), header), "header");
            sx::check(eq_bytes(p.buffer(), buf), "bytes");
            sx::check(p.descriptor == *d, "descriptor");
            if rows_kept { sx::check(match (p.selected_rows(), rows) { (Some([Interval { start: 0, length }]), Some(n)) => length == n, (None, None) => true, _ => false }, "rows"); }
            else { sx::check(p.selected_rows().is_none(), "rows"); }
            sx::reach("data");
        }
        _ => sx::check(false, "another kind of page"),
    }
}
/// what a compressed page says of itself
fn described(p: &CompressedPage, s: &Spec, c: CompressionOptions) {
    match (p, s) {
        (CompressedPage::Dict(p), Spec::Dict { sorted, .. }) => {
            sx::check(p.is_sorted == *sorted && p.compression() == c.into(), "compressed dictionary");
        }
        (CompressedPage::Data(p), Spec::Data { header, buf, .. }) => {
            sx::check(headers(p.header(), header), "compressed header");
            sx::check(p.uncompressed_size() == buf.len() && p.compression() == c.into(), "compressed sizes");
            if c == CompressionOptions::Uncompressed { sx::check(p.compressed_size() == buf.len(), "sizes"); }
            else if let DataPageHeader::V2(h) = p.header() { sx::check(h.is_compressed.unwrap_or(true), "flag"); }
        }
        _ => sx::check(false, "another kind of page"),
    }
}
struct Source { v: std::vec::IntoIter<Result<CompressedPage, Error>>, scratch: Vec<u8>, swaps: usize }
impl Iterator for Source { type Item = Result<CompressedPage, Error>; fn next(&mut self) -> Option<Self::Item> { self.v.next() } }
impl PageIterator for Source { fn swap_buffer(&mut self, b: &mut Vec<u8>) { self.swaps += 1; std::mem::swap(&mut self.scratch, b) } }

fn single() -> SchemaDescriptor { SchemaDescriptor::new("r".to_string(), vec![leaf("a", PhysicalType::Int64, Repetition::Optional)]) }

harnesses! {
    // [codec, code, k, n]: each page on its own, with buffers that held something else
    fn h_page() {
        let (c, d) = (option(sx::param(0)), desc());
        let v = sequence(sx::param(1), sx::param(2), sx::param(3));
        let mut out = vec![3u8; 11];
        for s in &v {
            let z = match compress(plain(s, &d), vec![9u8; 5], c) { Ok(z) => z, Err(_) => { sx::check(false, "compression failed"); return; } };
            described(&z, s, c);
            match decompress(z, &mut out) {
                Ok(p) => { restored(&p, s, &d, true); out = match p { Page::Dict(p) => p.buffer, Page::Data(mut p) => std::mem::take(p.buffer_mut()) }; }
                Err(_) => { sx::check(false, "decompression failed"); return; }
            }
            // larger and smaller than the next
            if sx::param(3) % 2 == 0 { out.extend_from_slice(&[0xcc; 30]); }
        }
    }
    // [codecs, code, k, n, failing]: pages of any codecs through one decompressor, of which one may fail
    fn h_sequence() {
        let d = desc();
        let v = sequence(sx::param(1), sx::param(2), sx::param(3));
        let bad = sx::param(4);
        for which in 0..2 {
            let mut codes = sx::param(0);
            let mut z = vec![];
            for (i, s) in v.iter().enumerate() {
                if i == bad {
                    // an error, or a damaged page
                    z.push(if codes % 2 == 0 { Err(Error::InvalidParameter(String::new())) } else {
                        Ok(CompressedPage::Data(CompressedDataPage::new(v1(1, Encoding::Plain, Encoding::Rle, Encoding::Rle), vec![200, 0xff, 0xff], Compression::Snappy, 7, d.clone(), None)))
                    });
                } else {
                    z.push(compress(plain(s, &d), vec![1; 3], option([0, 1, 2, 3][codes % 4])));
                }
                codes /= 4;
            }
            let source = Source { v: z.into_iter(), scratch: vec![8; 6], swaps: 0 };
            let mut n = 0;
            if which == 0 {
                let mut it = Decompressor::new(source, vec![2; 4]);
                while n < v.len() {
                    match it.next() {
                        Ok(Some(p)) => { sx::check(n != bad, "the failing page"); restored(p, &v[n], &d, true); }
                        Ok(None) => { sx::check(false, "ended"); return; }
                        Err(_) => { sx::check(n == bad, "failed"); sx::reach("failed"); }
                    }
                    n += 1;
                }
                sx::check(matches!(it.next(), Ok(None)), "more pages");
                let _ = it.into_buffers();
            } else {
                let mut it = BasicDecompressor::new(source, vec![2; 4]);
                while n < v.len() {
                    match it.next() {
                        Ok(Some(p)) => { sx::check(n != bad, "the failing page"); restored(p, &v[n], &d, true); }
                        Ok(None) => { sx::check(false, "ended"); return; }
                        Err(_) => { sx::check(n == bad, "failed"); sx::reach("failed"); }
                    }
                    n += 1;
                }
                sx::check(matches!(it.next(), Ok(None)), "more pages");
                let _ = it.into_inner();
            }
        }
    }
    // [codec, code, k, n, after, failing]: pages through one compressor
    fn h_compressor() {
        let (c, d) = (option(sx::param(0)), desc());
        let v = sequence(sx::param(1), sx::param(2), sx::param(3));
        let bad = sx::param(5);
        let it = v.iter().enumerate().map(|(i, s)| {
            if i != bad { return Ok(plain(s, &d)); }
            let mut h = header_v2(1, 1, Encoding::Plain, 0, 0);
            if let DataPageHeader::V2(h) = &mut h { h.definition_levels_byte_length = 9; }
            if i % 2 == 0 || c == CompressionOptions::Uncompressed { Err(Error::InvalidParameter(String::new())) } else { Ok(Page::Data(DataPage::new(h, vec![5; 4], d.clone(), None))) }
        });
        let mut z = Compressor::new(it, c, vec![7; 9]);
        for (i, s) in v.iter().enumerate().take(sx::param(4)) {
            match z.next() {
                Ok(Some(p)) => {
                    described(p, s, c);
                    // of the size it has on its own
                    if let (Ok(CompressedPage::Data(a)), CompressedPage::Data(b)) = (compress(plain(s, &d), vec![], c), p) { sx::check(a.compressed_size() == b.compressed_size(), "size"); }
                }
                Ok(None) => sx::check(false, "ended"),
                Err(_) => sx::check(i == bad, "failed"),
            }
        }
        let (mut rest, buffer) = z.into_inner();
        sx::check(buffer.is_empty(), "the buffer is not empty");
        sx::check(rest.next().is_some() == (sx::param(4) < v.len()), "pages");
    }
    // [codec, code, k, n]: through a file
    fn h_file() {
        let (c, schema) = (option(sx::param(0)), single());
        let d = schema.columns()[0].descriptor.clone();
        let mut v = sequence(sx::param(1), sx::param(2), sx::param(3));
        // the reader stops once it has all values of the chunk
        v.push(page(0, 2, 1));
        let pages: Vec<Result<Page, Error>> = v.iter().map(|s| Ok(plain(s, &d))).collect();
        let z = Compressor::new(pages.into_iter(), c, vec![7; 3]);
        let mut w = FileWriter::new(std::io::Cursor::new(vec![]), schema.clone(), options(false, true), None);
        let column = Ok::<_, Error>(DynStreamingIterator::new(z));
        if w.write(DynIter::new(std::iter::once(column))).is_err() || w.end(None).is_err() { sx::check(false, "writing failed"); return; }
        let f = w.into_inner().into_inner();
        // the file as written: sizes, and levels as they were
        let m = match read_metadata(&mut std::io::Cursor::new(&f)) { Ok(m) => m, Err(_) => { sx::check(false, "metadata"); return; } };
        let chunk = &m.row_groups[0].columns()[0];
        sx::check(chunk.compression() == c.into(), "codec");
        let mut at = chunk.byte_range().0 as usize;
        let mut total = 0;
        for s in &v {
            let mut r = std::io::Cursor::new(&f[at..]);
            let h = tf::PageHeader::read_from_in_protocol(&mut tf::thrift::protocol::TCompactInputProtocol::new(&mut r, 1 << 20)).unwrap();
            let head = r.position() as usize;
            let body = &f[at + head..at + head + h.compressed_page_size as usize];
            let buf = match s { Spec::Dict { buf, .. } | Spec::Data { buf, .. } => buf };
            sx::check(h.uncompressed_page_size as usize == buf.len(), "uncompressed size");
            if let Spec::Data { header, .. } = s {
                let n = levels(header);
                sx::check(body.len() >= n && eq_bytes(&body[..n], &buf[..n]), "levels");
            }
            total += head + buf.len();
            at += head + h.compressed_page_size as usize;
        }
        sx::check(chunk.uncompressed_size() as usize == total, "total uncompressed size");
        for which in 0..2 {
            let pages = match get_page_iterator(chunk, std::io::Cursor::new(&f), None, vec![4; 2], 1 << 12) { Ok(p) => p, Err(_) => { sx::check(false, "pages"); return; } };
            let mut n = 0;
            if which == 0 {
                let mut it = Decompressor::new(pages, vec![1; 50]);
                loop {
                    match it.next() { Ok(Some(p)) => restored(p, &v[n], &d, false), Ok(None) => break, Err(_) => { sx::check(false, "reading failed"); return; } }
                    n += 1;
                }
            } else {
                let mut it = BasicDecompressor::new(pages, vec![1; 50]);
                loop {
                    match it.next() { Ok(Some(p)) => restored(p, &v[n], &d, false), Ok(None) => break, Err(_) => { sx::check(false, "reading failed"); return; } }
                    n += 1;
                }
            }
            sx::check(n == v.len(), "number of pages");
        }
    }
    // [codec, n]: any declared lengths of levels
    fn h_levels() {
        let (c, d) = (option(sx::param(0)), desc());
        let (a, b) = (sx::i32(), sx::i32());
        let buf = sx::bytes(sx::param(1));
        let mut h = header_v2(1, 1, Encoding::Plain, 0, 0);
        if let DataPageHeader::V2(h) = &mut h { h.definition_levels_byte_length = a; h.repetition_levels_byte_length = b; }
        let good = a >= 0 && b >= 0 && a as i64 + b as i64 <= buf.len() as i64;
        match compress(Page::Data(DataPage::new(h.clone(), buf.clone(), d.clone(), None)), vec![], c) {
            Ok(z) => {
                sx::check(good || sx::param(0) == 0, "levels longer than the page");
                match decompress(z, &mut vec![1; 2]) { Ok(Page::Data(p)) => sx::check(eq_bytes(p.buffer(), &buf), "bytes"), _ => sx::check(false, "decompression failed") }
                sx::reach("compressed");
            }
            Err(_) => { sx::check(!good && sx::param(0) > 0, "failed"); sx::reach("refused"); }
        }
    }
    // [codec, n, size, flag]: any lengths of levels in a compressed page of any bytes
    fn h_damaged() {
        let (c, d) = (option(sx::param(0)), desc());
        let buf = sx::bytes(sx::param(1));
        let size = sx::param(2);
        let mut h = header_v2(1, 1, Encoding::Plain, 0, 0);
        let (a, b) = (sx::i32(), sx::i32());
        if let DataPageHeader::V2(h) = &mut h { h.definition_levels_byte_length = a; h.repetition_levels_byte_length = b; h.is_compressed = [None, Some(false), Some(true)][sx::param(3)]; }
        let z = CompressedPage::Data(CompressedDataPage::new(h, buf.clone(), c.into(), size, d, None));
        match decompress(z, &mut vec![1; 2]) {
            Ok(Page::Data(p)) => {
                sx::check(p.buffer().len() == size, "not of the declared size");
                let n = if sx::param(3) == 1 { size as i64 } else { a as i64 + b as i64 };
                sx::check(a >= 0 && b >= 0 && n <= size as i64 && n <= buf.len() as i64, "levels beyond the page");
                for i in 0..size { if (i as i64) < n { sx::check(p.buffer()[i] == buf[i], "levels"); } }
                sx::reach("read");
            }
            Ok(_) => sx::check(false, "kind"),
            Err(_) => { sx::check(true, ""); sx::reach("refused"); }
        }
    }
}
