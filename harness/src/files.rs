//! files built with the real writer from a description of their pages, and what to expect of them
use std::sync::atomic::{AtomicUsize, Ordering};
use crate::sx;
use crate::util::*;
use parquet2::compression::Compression;
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::metadata::{Descriptor, SchemaDescriptor, ThriftFileMetaData};
use parquet2::page::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet2::write::*;
use parquet2::FallibleStreamingIterator;
use std::io::Write;

#[derive(Clone)]
pub enum Spec {
    Dict { buf: Vec<u8>, n: usize, sorted: bool },
    Data { header: DataPageHeader, buf: Vec<u8>, rows: Option<usize> },
}
/// how much larger the pages are when they are not compressed, and with which codec (0: not compressed)
static LARGER: AtomicUsize = AtomicUsize::new(0);
static CODEC: AtomicUsize = AtomicUsize::new(0);
const CODECS: [Compression; 8] = [Compression::Uncompressed, Compression::Snappy, Compression::Gzip, Compression::Lzo, Compression::Brotli, Compression::Lz4, Compression::Zstd, Compression::Lz4Raw];
/// declares the pages of `make` compressed with the codec of a code, from that many bytes more
pub fn compressed(codec: usize, larger: usize) {
    CODEC.store(codec, Ordering::Relaxed);
    LARGER.store(larger, Ordering::Relaxed);
}
pub fn larger() -> usize { LARGER.load(Ordering::Relaxed) }
pub fn codec() -> usize { CODEC.load(Ordering::Relaxed) }
pub fn make(s: &Spec, d: &Descriptor) -> CompressedPage {
    let c = CODECS[codec()];
    match s {
        Spec::Dict { buf, n, sorted } => CompressedPage::Dict(CompressedDictPage::new(buf.clone(), c, buf.len() + larger(), *n, *sorted)),
        Spec::Data { header, buf, rows } => {
            CompressedPage::Data(CompressedDataPage::new(header.clone(), buf.clone(), c, buf.len() + larger(), d.clone(), *rows))
        }
    }
}
pub struct Pages {
    pub v: Vec<CompressedPage>,
    pub i: usize,
    /// fails instead of giving this page
    pub fail: usize,
}
impl Pages {
    pub fn new(v: Vec<CompressedPage>) -> Self { Pages { v, i: 0, fail: usize::MAX } }
}
impl FallibleStreamingIterator for Pages {
    type Item = CompressedPage;
    type Error = Error;
    fn advance(&mut self) -> Result<(), Error> {
        if self.i == self.fail { return Err(Error::InvalidParameter(String::new())); }
        self.i += 1;
        Ok(())
    }
    fn get(&self) -> Option<&CompressedPage> { if self.i == 0 { None } else { self.v.get(self.i - 1) } }
}
pub type Group = Vec<Vec<Spec>>;

pub fn row_group(schema: &SchemaDescriptor, g: &Group) -> RowGroupIter<'static, Error> {
    let cols: Vec<_> = g.iter().enumerate().map(|(i, pages)| {
        let d = &schema.columns()[i].descriptor;
        Ok::<_, Error>(DynStreamingIterator::new(Pages::new(pages.iter().map(|p| make(p, d)).collect())))
    }).collect();
    DynIter::new(cols.into_iter())
}
pub fn options(stats: bool, v2: bool) -> WriteOptions {
    WriteOptions { write_statistics: stats, version: if v2 { Version::V2 } else { Version::V1 } }
}
/// writes a whole file
pub fn write<W: Write>(w: W, schema: &SchemaDescriptor, o: WriteOptions, by: Option<String>, groups: &[Group], kv: Option<Vec<parquet2::metadata::KeyValue>>) -> Result<(W, u64, ThriftFileMetaData), Error> {
    let mut f = FileWriter::new(w, schema.clone(), o, by);
    for g in groups { f.write(row_group(schema, g))?; }
    let n = f.end(kv)?;
    let (w, m) = f.into_inner_and_metadata();
    Ok((w, n, m))
}
pub fn leaf(name: &str, t: PhysicalType, r: Repetition) -> ParquetType {
    ParquetType::try_from_primitive(name.to_string(), t, r, None, None, None).unwrap()
}
pub fn group(name: &str, r: Repetition, fields: Vec<ParquetType>) -> ParquetType {
    ParquetType::from_converted(name.to_string(), fields, r, None, None)
}
/// 0: no columns, 1: one required, 2: two flat, 3: nested
pub fn schema(k: usize) -> SchemaDescriptor {
    use Repetition::*;
    let f = match k {
        0 => vec![],
        1 => vec![leaf("a", PhysicalType::Int32, Required)],
        2 => vec![leaf("a", PhysicalType::Int64, Optional), leaf("b", PhysicalType::ByteArray, Required)],
        _ => vec![
            group("g", Optional, vec![leaf("x", PhysicalType::FixedLenByteArray(3), Repeated), group("h", Repeated, vec![leaf("y", PhysicalType::Boolean, Required)])]),
            leaf("z", PhysicalType::Double, Optional),
        ],
    };
    SchemaDescriptor::new("schema".to_string(), f)
}
pub fn v1(n: i32, e: Encoding, def: Encoding, rep: Encoding) -> DataPageHeader {
    DataPageHeader::V1(DataPageHeaderV1 { num_values: n, encoding: e.into(), definition_level_encoding: def.into(), repetition_level_encoding: rep.into(), statistics: None })
}
/// a small count; its high bits are known to be zero
pub fn few() -> usize { (sx::u8() & 7) as usize }
/// a small count that is not zero
pub fn some() -> usize { (sx::u8() & 6 | 1) as usize }
/// `pages` data pages of mixed versions, encodings and sizes, after an optional dictionary; counts small and symbolic
pub fn column(pages: usize, dict: bool, seed: usize, free: usize) -> Vec<Spec> {
    let flip = sx::param(5) == 1;
    let mut v = vec![];
    if dict {
        v.push(Spec::Dict { buf: sx::bytes(1 + seed % 3), n: if seed % 3 == 2 { 0 } else { some() }, sorted: (seed % 2 == 0) ^ flip });
    }
    for i in 0..pages {
        let n = some() as i32;
        let e = [Encoding::Plain, Encoding::RleDictionary, Encoding::DeltaBinaryPacked, Encoding::Rle, Encoding::PlainDictionary, Encoding::DeltaByteArray, Encoding::DeltaLengthByteArray][(seed + i) % 7];
        let buf = sx::bytes(if free == 0 { (seed + 2 * i) % 4 } else { free });
        let rows = if (seed + i) % 5 == 4 { 0 } else { some() };
        let header = if (seed + i) % 2 == 0 {
            v1(n, e, if (seed + i) % 4 == 0 { Encoding::Rle } else { Encoding::BitPacked }, Encoding::Rle)
        } else {
            let h = header_v2(n, rows as i32, e, 0, 0);
            h
        };
        v.push(Spec::Data { header, buf, rows: Some(rows) });
    }
    v
}
/// the number of values as stored
pub fn values(h: &DataPageHeader) -> i64 { match h { DataPageHeader::V1(h) => h.num_values as i64, DataPageHeader::V2(h) => h.num_values as i64 } }
/// the encodings of values, definition and repetition levels as stored; those of levels are fixed in version 2
pub fn encodings(h: &DataPageHeader) -> [parquet_format_safe::Encoding; 3] {
    match h {
        DataPageHeader::V1(h) => [h.encoding, h.definition_level_encoding, h.repetition_level_encoding],
        DataPageHeader::V2(h) => [h.encoding, Encoding::Rle.into(), Encoding::Rle.into()],
    }
}
pub fn same_header(a: &DataPageHeader, b: &DataPageHeader) -> bool {
    match (a, b) {
        (DataPageHeader::V1(a), DataPageHeader::V1(b)) => {
            (a.num_values == b.num_values) & (a.encoding == b.encoding) & (a.definition_level_encoding == b.definition_level_encoding)
                & (a.repetition_level_encoding == b.repetition_level_encoding) & same_stats(&a.statistics, &b.statistics)
        }
        (DataPageHeader::V2(a), DataPageHeader::V2(b)) => {
            (a.num_values == b.num_values) & (a.num_nulls == b.num_nulls) & (a.num_rows == b.num_rows) & (a.encoding == b.encoding)
                & (a.definition_levels_byte_length == b.definition_levels_byte_length) & (a.repetition_levels_byte_length == b.repetition_levels_byte_length)
                & (a.is_compressed.unwrap_or(true) == b.is_compressed.unwrap_or(true)) & same_stats(&a.statistics, &b.statistics)
        }
        _ => false,
    }
}
pub type TStats = parquet_format_safe::Statistics;
pub fn same_opt(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => eq_bytes(a, b),
        (None, None) => true,
        _ => false,
    }
}
pub fn same_i(a: Option<i64>, b: Option<i64>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}
pub fn same_stats(a: &Option<TStats>, b: &Option<TStats>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => same_opt(&a.max, &b.max) & same_opt(&a.min, &b.min) & same_i(a.null_count, b.null_count) & same_i(a.distinct_count, b.distinct_count) & same_opt(&a.max_value, &b.max_value) & same_opt(&a.min_value, &b.min_value),
        (None, None) => true,
        _ => false,
    }
}
/// asserts that a page read is the one described
pub fn check_page(p: CompressedPage, s: &Spec, d: &Descriptor) {
    match (p, s) {
        (CompressedPage::Dict(p), Spec::Dict { buf, n, sorted }) => {
            sx::check(p.is_sorted == *sorted, "dictionary order");
            sx::check(p.compression() == Compression::Uncompressed, "codec");
            match parquet2::read::decompress(CompressedPage::Dict(p), &mut vec![]) {
                Ok(Page::Dict(p)) => {
                    sx::check(p.num_values == *n, "dictionary values");
                    sx::check(eq_bytes(&p.buffer, buf), "dictionary bytes");
                }
                _ => sx::check(false, "dictionary body"),
            }
        }
        (CompressedPage::Data(p), Spec::Data { header, buf, .. }) => {
            sx::check(same_header(p.header(), header), "page header");
            sx::check(p.num_values() as i64 == values(header) && p.header().num_values() as i64 == values(header), "values of the page");
            sx::check(p.uncompressed_size() == buf.len(), "uncompressed size");
            sx::check(p.compressed_size() == buf.len(), "compressed size");
            sx::check(p.compression() == Compression::Uncompressed, "codec");
            match parquet2::read::decompress(CompressedPage::Data(p), &mut vec![]) {
                Ok(Page::Data(p)) => {
                    sx::check(eq_bytes(p.buffer(), buf), "page bytes");
                    sx::check(p.descriptor == *d, "descriptor");
                    sx::check(p.num_values() as i64 == values(header), "values of the page");
                    let e: [parquet_format_safe::Encoding; 3] = [p.encoding().into(), p.definition_level_encoding().into(), p.repetition_level_encoding().into()];
                    sx::check(e == encodings(header), "encodings of the page");
                }
                _ => sx::check(false, "page body"),
            }
        }
        _ => sx::check(false, "kind of page"),
    }
}
