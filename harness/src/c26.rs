use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::metadata::SchemaDescriptor;
use parquet2::read::read_metadata;
use parquet2::write::*;
use crate::aio::*;
use futures::AsyncWrite;
use std::io::Cursor;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

/// what was written, also visible while the writer owns the sink
#[derive(Clone)]
struct Shared(Arc<Mutex<Io>>);
impl Shared {
    fn new() -> Self { Shared(Arc::new(Mutex::new(Io::split(vec![], if sx::param(2) == 2 { 2 } else { 0 }, (sx::param(2) == 2) as usize)))) }
    fn len(&self) -> usize { self.0.lock().unwrap().data.len() }
    fn bytes(&self) -> Vec<u8> { self.0.lock().unwrap().data.clone() }
}
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { std::io::Write::write(&mut *self.0.lock().unwrap(), b) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
impl AsyncWrite for Shared {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<std::io::Result<usize>> { Pin::new(&mut *self.0.lock().unwrap()).poll_write(cx, b) }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<std::io::Result<()>> { Pin::new(&mut *self.0.lock().unwrap()).poll_flush(cx) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<std::io::Result<()>> { Poll::Ready(Ok(())) }
}
/// either writer
enum Writer { Direct(FileWriter<Shared>), Stream(FileStreamer<Shared>) }
impl Writer {
    fn new(sink: &Shared, s: &SchemaDescriptor, o: WriteOptions, by: Option<String>) -> Self {
        if sx::param(2) == 0 { Writer::Direct(FileWriter::new(sink.clone(), s.clone(), o, by)) } else { Writer::Stream(FileStreamer::new(sink.clone(), s.clone(), o, by)) }
    }
    fn write(&mut self, r: RowGroupIter<'static, Error>) -> Result<(), Error> { match self { Writer::Direct(w) => w.write(r), Writer::Stream(w) => block_on(w.write(r)) } }
    fn end(&mut self) -> Result<u64, Error> { match self { Writer::Direct(w) => w.end(None), Writer::Stream(w) => block_on(w.end(None)) } }
    /// (the asynchronous writer does not give it)
    fn metadata(&self, expected: bool) -> bool { match self { Writer::Direct(w) => w.metadata().is_some(), _ => expected } }
}
fn page(stats: bool) -> Spec {
    let mut h = v1(some() as i32, Encoding::Plain, Encoding::Rle, Encoding::Rle);
    if let (true, parquet2::page::DataPageHeader::V1(h)) = (stats, &mut h) {
        h.statistics = Some(TStats { max: None, min: None, null_count: Some(0), distinct_count: None, max_value: Some(vec![3; 8]), min_value: Some(vec![2; 8]) });
    }
    Spec::Data { header: h, buf: sx::bytes(2), rows: Some(some()) }
}
#[derive(Clone, Copy, PartialEq)]
enum Bad { None, ColumnError, PageError, Fewer, More, MixedRows }
/// a row group of two columns of which something may be wrong
fn rows(s: &SchemaDescriptor, bad: Bad, stats: bool) -> (RowGroupIter<'static, Error>, usize) {
    let n = match bad { Bad::Fewer => 1, Bad::More => 3, _ => 2 };
    let at = if n == 2 { sx::choose(2) } else { 0 };
    let mut total = 0;
    let cols: Vec<_> = (0..n).map(|i| {
        let d = &s.columns()[i.min(1)].descriptor;
        let mut pages = vec![page(stats), page(stats)];
        if bad == Bad::MixedRows && i == at {
            for p in &mut pages { if let Spec::Data { rows, .. } = p { *rows = None; } }
        }
        if i == 0 { total = pages.iter().map(|p| if let Spec::Data { rows, .. } = p { rows.unwrap_or(0) } else { 0 }).sum(); }
        let mut it = Pages::new(pages.iter().map(|p| make(p, d)).collect());
        if bad == Bad::PageError && i == at { it.fail = sx::choose(3); }
        if bad == Bad::ColumnError && i == at { Err(Error::OutOfSpec(String::new())) } else { Ok(DynStreamingIterator::new(it)) }
    }).collect();
    (DynIter::new(cols.into_iter()), total)
}
harnesses! {
    // every sequence of calls
    fn h_calls() {
        let (n, stats) = (sx::param(0), sx::param(1) == 1);
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", parquet2::schema::types::PhysicalType::Int64, parquet2::schema::Repetition::Required), leaf("b", parquet2::schema::types::PhysicalType::Double, parquet2::schema::Repetition::Optional)]);
        let sink = Shared::new();
        let len = || sink.len();
        let mut w = Writer::new(&sink, &s, options(stats, true), Some("me".to_string()));
        let mut ended = false;
        let mut failed = false;
        let mut total: Vec<usize> = vec![];
        let mut size = 0;
        for _ in 0..n {
            let before = len();
            sx::check(w.metadata(ended) == ended, "metadata is available exactly after the end");
            match sx::choose(7) {
                0 => {
                    let (r, k) = rows(&s, Bad::None, stats);
                    let r = w.write(r);
                    sx::check(r.is_ok() == (!ended && !failed), "write is accepted exactly before the end and without failures");
                    if r.is_ok() { total.push(k); } else { sx::check(len() == before, "a refused write wrote"); }
                }
                6 => {
                    let r = w.end();
                    sx::check(r.is_ok() == (!ended && !failed), "end is accepted exactly once");
                    match r {
                        Ok(k) => { ended = true; size = k as usize; sx::check(size == len(), "length"); sx::reach("ended"); }
                        Err(_) => { sx::check(len() == before, "a refused end wrote"); sx::reach("end refused"); }
                    }
                }
                k => {
                    let bad = [Bad::ColumnError, Bad::PageError, Bad::Fewer, Bad::More, Bad::MixedRows][k - 1];
                    let (r, _) = rows(&s, bad, stats);
                    let at = w.write(r);
                    if bad == Bad::MixedRows {
                        // the number of rows of the first column decides; others are only needed by the indexes
                        if at.is_ok() { return; }
                    }
                    sx::check(at.is_err(), "a row group that cannot be produced is accepted");
                    if ended || failed { sx::check(len() == before, "a refused write wrote"); }
                    if !ended { failed = true; }
                    sx::reach("failed");
                }
            }
            sx::check(len() < 4 || eq_bytes(&sink.bytes()[..4], b"PAR1"), "header");
        }
        sx::check(w.metadata(ended) == ended, "metadata is available exactly after the end");
        let f = sink.bytes();
        if ended {
            sx::check(size == f.len(), "the file changed after its end");
            match read_metadata(&mut Cursor::new(&f)) {
                Ok(m) => {
                    sx::check(m.row_groups.len() == total.len(), "row groups");
                    sx::check(m.num_rows == total.iter().sum::<usize>(), "rows");
                    for (r, n) in m.row_groups.iter().zip(&total) { sx::check(r.num_rows() == *n, "rows of the row group"); }
                    // one header and one footer
                    let p = m.row_groups.first().map(|r| r.columns()[0].byte_range().0);
                    if let Some(p) = p { sx::check(p == 4, "the first page follows the header"); }
                }
                Err(_) => sx::check(false, "file is refused"),
            }
        } else {
            // nothing that passes for a file
            sx::check(f.len() < 12 || !eq_bytes(&f[f.len() - 4..], b"PAR1"), "footer without end");
        }
    }
    // [row groups, operations, writer, fault]: the sink fails at any operation, which ends the file
    fn h_sink() {
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", parquet2::schema::types::PhysicalType::Int64, parquet2::schema::Repetition::Required), leaf("b", parquet2::schema::types::PhysicalType::Double, parquet2::schema::Repetition::Optional)]);
        let sink = Shared::new();
        {
            let mut io = sink.0.lock().unwrap();
            io.fault = [Fault::Error, Fault::Nothing][sx::param(3)];
            io.when = 16 * sx::param(1) + (sx::u8() & 15) as usize;
        }
        let hit = || sink.0.lock().unwrap().hit;
        let mut w = Writer::new(&sink, &s, options(true, true), None);
        for _ in 0..sx::param(0) {
            let (r, _) = rows(&s, Bad::None, true);
            let failed = hit();
            let before = sink.len();
            sx::check(w.write(r).is_ok() == !hit(), "write");
            if failed { sx::check(sink.len() == before, "a refused write wrote"); }
            sx::check(w.metadata(false) == false, "metadata before the end");
        }
        let before = sink.len();
        let failed = hit();
        let ok = w.end().is_ok();
        sx::check(ok == !hit(), "end");
        if failed { sx::check(sink.len() == before, "a refused end wrote"); }
        sx::check(w.metadata(ok) == ok, "metadata exactly after the end");
        let before = sink.len();
        sx::check(w.end().is_err(), "second end");
        let (r, _) = rows(&s, Bad::None, true);
        sx::check(w.write(r).is_err(), "write after the end");
        sx::check(sink.len() == before, "refused calls wrote");
        sx::check(w.metadata(ok) == ok, "metadata exactly after the end");
        if ok { sx::reach("ended"); } else { sx::reach("failed"); }
    }
    // statistics requested but missing: refused instead of a file without them
    fn h_missing() {
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", parquet2::schema::types::PhysicalType::Int64, parquet2::schema::Repetition::Required)]);
        let sink = Shared::new();
        let mut w = Writer::new(&sink, &s, options(true, false), None);
        let r = w.write(row_group(&s, &vec![vec![page(true), page(sx::param(0) == 1)]]));
        sx::check(r.is_ok(), "write");
        let r = w.end();
        sx::check(r.is_ok() == (sx::param(0) == 1), "the end of a file without its statistics");
        sx::check(w.metadata(r.is_ok()) == r.is_ok(), "metadata");
        let len = sink.len();
        sx::check(w.end().is_err(), "second end");
        sx::check(w.write(row_group(&s, &vec![vec![page(true)]])).is_err(), "write after the end");
        sx::check(len == sink.len(), "refused calls wrote");
        sx::check(w.metadata(r.is_ok()) == r.is_ok(), "metadata afterwards");
    }
}
