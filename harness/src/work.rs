//! what reading gives, as a sequence of numbers: every operation of the reader on a source
use crate::aio::*;
use crate::files::*;
use parquet2::error::Error;
use parquet2::indexes::*;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use std::sync::Arc;

fn codec(p: &CompressedPage) -> u64 { (match p { CompressedPage::Data(p) => p.compression(), CompressedPage::Dict(p) => p.compression() }) as u64 }
#[derive(Default)]
pub struct Out { pub v: Vec<u64>, pub err: bool }
impl Out {
    pub fn bytes(&mut self, b: &[u8]) { self.v.push(b.len() as u64); for x in b { self.v.push(*x as u64); } }
    fn opt(&mut self, b: &Option<Vec<u8>>) { match b { Some(b) => self.bytes(b), None => self.v.push(u64::MAX) } }
    fn num(&mut self, b: Option<i64>) { match b { Some(b) => self.v.push(b as u64), None => self.v.push(1 << 63 | 77) } }
    fn stats(&mut self, s: &Option<TStats>) {
        if let Some(s) = s { self.opt(&s.max); self.opt(&s.min); self.num(s.null_count); self.num(s.distinct_count); self.opt(&s.max_value); self.opt(&s.min_value); } else { self.v.push(1 << 62); }
    }
    pub fn page(&mut self, p: CompressedPage) {
        self.v.push(codec(&p));
        match &p {
            CompressedPage::Data(p) => {
                self.v.extend_from_slice(&[p.num_values() as u64, p.compressed_size() as u64, p.uncompressed_size() as u64]);
                match p.header() {
                    DataPageHeader::V1(h) => { self.v.extend_from_slice(&[1, h.num_values as u64, h.encoding.0 as u64, h.definition_level_encoding.0 as u64, h.repetition_level_encoding.0 as u64]); self.stats(&h.statistics); }
                    DataPageHeader::V2(h) => {
                        self.v.extend_from_slice(&[2, h.num_values as u64, h.encoding.0 as u64, h.num_nulls as u64, h.num_rows as u64, h.definition_levels_byte_length as u64, h.repetition_levels_byte_length as u64, h.is_compressed.map(|x| x as u64).unwrap_or(9)]);
                        self.stats(&h.statistics);
                    }
                }
                if let Some(r) = p.selected_rows() { for r in r { self.v.extend_from_slice(&[r.start as u64, r.length as u64]); } }
            }
            CompressedPage::Dict(p) => self.v.extend_from_slice(&[3, p.is_sorted as u64]),
        }
        self.compressed(p);
    }
    /// the bytes of the page (of those that are not compressed)
    fn compressed(&mut self, p: CompressedPage) {
        if codec(&p) != 0 { return; }
        match decompress(p, &mut vec![]) {
            Ok(Page::Data(p)) => self.bytes(p.buffer()),
            Ok(Page::Dict(p)) => { self.v.push(p.num_values as u64); self.bytes(&p.buffer) }
            Err(_) => self.v.push(1 << 61),
        }
    }
    pub fn meta(&mut self, m: FileMetaData) {
        let mut b = vec![];
        self.v.push(m.num_rows as u64);
        let ok = m.into_thrift().write_to_out_protocol(&mut parquet_format_safe::thrift::protocol::TCompactOutputProtocol::new(&mut b)).is_ok();
        self.v.push(ok as u64);
        self.bytes(&b);
    }
    pub fn done(mut self, r: Result<(), Error>) -> Out { self.err = r.is_err(); self }
}
pub fn filter(k: usize) -> PageFilter { Arc::new(move |_: &Descriptor, h: &DataPageHeader| k == 0 || matches!(h, DataPageHeader::V1(_))) }
/// 0 metadata; 1, 2 pages of a column without and with a filter; 3 pages selected by the index; 4 indexes; 5 locations of pages; 6 chunks of a field; 7 pages of a field
pub fn sync(kind: usize, io: &mut Io, m: &FileMetaData, column: usize) -> Out {
    let mut o = Out::default();
    let r = (|| -> Result<(), Error> {
        if kind == 0 { let m = read_metadata(io)?; o.meta(m); return Ok(()); }
        let rg = &m.row_groups[0];
        let c = &rg.columns()[column];
        let name = c.descriptor().path_in_schema[0].clone();
        match kind {
            1 | 2 => for p in get_page_iterator(c, io, if kind == 1 { None } else { Some(filter(1)) }, vec![9; 3], 1 << 10)? { o.page(p?); },
            3 => {
                let l = read_pages_locations(io, rg.columns())?;
                let pages = select_pages(&[Interval::new(0, rg.num_rows())], &l[column], rg.num_rows())?;
                for p in IndexedPageReader::new(io, c, pages, vec![1], vec![]) { o.page(p?); }
            }
            4 => for i in read_columns_indexes(io, rg.columns())? {
                o.v.push(i.physical_type() as *const _ as usize as u64 & 0);
                if let Some(i) = i.as_any().downcast_ref::<NativeIndex<i64>>() {
                    for p in &i.indexes { o.num(p.min); o.num(p.max); o.num(p.null_count); }
                } else if let Some(i) = i.as_any().downcast_ref::<ByteIndex>() {
                    for p in &i.indexes { o.opt(&p.min); o.opt(&p.max); o.num(p.null_count); }
                }
            },
            5 => for l in read_pages_locations(io, rg.columns())? { for l in l { o.v.extend_from_slice(&[l.offset as u64, l.compressed_page_size as u64, l.first_row_index as u64]); } },
            6 => for (_, b) in read_columns(io, rg.columns(), &name)? { o.bytes(&b); },
            _ => {
                let mut it = get_column_iterator(io, rg, &name, None, vec![], 1 << 10);
                loop {
                    match it.advance()? {
                        State::Some(mut x) => {
                            if let Some(p) = x.get() { for p in &mut p.0 { o.page(p?); } }
                            it = x;
                        }
                        State::Finished(_) => return Ok(()),
                    }
                }
            }
        }
        Ok(())
    })();
    o.done(r)
}
/// 0 metadata; 1, 2 pages of a column; 3, 4 from its start; 6 chunks of a field (of one column)
#[cfg(feature = "aio")]
pub fn asynchronous(kind: usize, io: &mut Io, m: &FileMetaData, column: usize) -> Out {
    use futures::StreamExt;
    let mut o = Out::default();
    let r = block_on(async {
        if kind == 0 { let m = read_metadata_async(io).await?; o.meta(m); return Ok(()); }
        let rg = &m.row_groups[0];
        let c = &rg.columns()[column];
        match kind {
            1 | 2 => {
                let s = get_page_stream(c, io, vec![9; 3], filter(kind - 1), 1 << 10).await?;
                let mut s = std::pin::pin!(s);
                while let Some(p) = s.next().await { o.page(p?); }
            }
            3 | 4 => {
                io.at = c.byte_range().0;
                let s = get_page_stream_from_column_start(c, io, vec![], filter(kind - 3), 1 << 10).await?;
                let mut s = std::pin::pin!(s);
                while let Some(p) = s.next().await { o.page(p?); }
            }
            _ => {
                let name = c.descriptor().path_in_schema[0].clone();
                let copy = io.clone();
                let shared = Arc::new(std::sync::Mutex::new((0, false)));
                let made = shared.clone();
                let factory = move || { let c = Watched(copy.clone(), made.clone()); Box::pin(async move { Ok(c) }) as futures::future::BoxFuture<'static, std::io::Result<Watched>> };
                let r = read_columns_async(factory, rg.columns(), &name).await;
                io.hit = shared.lock().unwrap().1;
                io.ops += shared.lock().unwrap().0;
                for (_, b) in r? { o.bytes(&b); }
            }
        }
        Ok::<_, Error>(())
    });
    o.done(r)
}
/// a source that reports what happened to it when it is dropped
#[cfg(feature = "aio")]
pub struct Watched(Io, Arc<std::sync::Mutex<(usize, bool)>>);
#[cfg(feature = "aio")]
impl Drop for Watched { fn drop(&mut self) { let mut x = self.1.lock().unwrap(); x.0 += self.0.ops; x.1 |= self.0.hit; } }
#[cfg(feature = "aio")]
impl futures::AsyncRead for Watched {
    fn poll_read(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, b: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> { std::pin::Pin::new(&mut self.0).poll_read(cx, b) }
}
#[cfg(feature = "aio")]
impl futures::AsyncSeek for Watched {
    fn poll_seek(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, p: std::io::SeekFrom) -> std::task::Poll<std::io::Result<u64>> { std::pin::Pin::new(&mut self.0).poll_seek(cx, p) }
}
