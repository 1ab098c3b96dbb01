use crate::aio::*;
use crate::files::*;
use crate::util::*;
use crate::work::*;
use crate::{harnesses, sx};
use parquet2::bloom_filter;
use parquet2::error::Error;
use parquet2::metadata::*;
use parquet2::page::DataPageHeader;
use parquet2::read::read_metadata;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition::*;
use parquet2::write::*;

/// a field of one column, one of two and one of bytes, with statistics
fn tree() -> SchemaDescriptor {
    SchemaDescriptor::new("s".to_string(), vec![leaf("a", PhysicalType::Int64, Optional), group("g", Required, vec![leaf("x", PhysicalType::Int64, Required), leaf("y", PhysicalType::ByteArray, Optional)])])
}
fn groups(n: usize) -> Vec<Group> {
    (0..n).map(|g| (0..3).map(|c| {
        let mut v = column(1 + (c + 1) % 2, (g + c) % 2 == 0, g + c, 3);
        for s in v.iter_mut() {
            if let Spec::Data { header, rows, .. } = s {
                *rows = Some(1);
                let st = Some(TStats { max: None, min: None, null_count: Some(0), distinct_count: None, max_value: Some(vec![3; 8]), min_value: Some(vec![2; 8]) });
                match header { DataPageHeader::V1(h) => { h.num_values = 1; h.statistics = st } DataPageHeader::V2(h) => { h.num_values = 1; h.num_rows = 1; h.statistics = st } }
            }
            if let Spec::Dict { n, .. } = s { *n = 2; }
        }
        v
    }).collect()).collect()
}
fn fault(k: usize) -> Fault { [Fault::Error, Fault::Nothing, Fault::Interrupted, Fault::Short][k] }
/// one of the operations from `16 * p` on
fn when(p: usize) -> usize { 16 * p + (sx::u8() & 15) as usize }
enum Writer<'a> { Direct(FileWriter<&'a mut Io>), Stream(FileStreamer<&'a mut Io>) }
impl<'a> Writer<'a> {
    fn new(io: &'a mut Io, s: &SchemaDescriptor, o: WriteOptions, direct: bool) -> Self { if direct { Writer::Direct(FileWriter::new(io, s.clone(), o, None)) } else { Writer::Stream(FileStreamer::new(io, s.clone(), o, None)) } }
    fn write(&mut self, r: RowGroupIter<'static, Error>) -> Result<(), Error> { match self { Writer::Direct(w) => w.write(r), Writer::Stream(w) => block_on(w.write(r)) } }
    fn end(&mut self) -> Result<u64, Error> { match self { Writer::Direct(w) => w.end(None), Writer::Stream(w) => block_on(w.end(None)) } }
    fn ended(&self, expected: bool) -> bool { match self { Writer::Direct(w) => w.metadata().is_some(), _ => expected } }
    fn into_inner(self) -> &'a mut Io { match self { Writer::Direct(w) => w.into_inner(), Writer::Stream(w) => w.into_inner() } }
}
fn full(s: &SchemaDescriptor, g: &[Group]) -> Vec<u8> {
    let mut io = Io::new(vec![]);
    let mut w = FileWriter::new(&mut io, s.clone(), options(true, true), None);
    for g in g { if w.write(row_group(s, g)).is_err() { return vec![]; } }
    if w.end(None).is_err() { return vec![]; }
    io.data
}
fn same(a: &[u64], b: &[u64]) -> bool { if a.len() != b.len() { return false; } let mut ok = true; for i in 0..a.len() { ok &= a[i] == b[i]; } ok }

harnesses! {
    // [fault, operations, direct?, groups]: one fault of the sink, at any operation
    fn h_write() {
        let s = tree();
        let g = groups(sx::param(3));
        let want = full(&s, &g);
        sx::check(want.len() > 12, "the file without faults");
        let f = fault(sx::param(0));
        let mut io = Io::fault(vec![], f, when(sx::param(1)));
        let mut w = Writer::new(&mut io, &s, options(true, true), sx::param(2) == 0);
        let mut err = false;
        let mut size = 0;
        for g in &g { if !err { err = w.write(row_group(&s, g)).is_err(); } }
        if !err { match w.end() { Ok(n) => size = n, Err(_) => err = true } }
        sx::check(w.ended(!err) == !err, "metadata after a failure");
        let io = w.into_inner();
        let fails = matches!(f, Fault::Error | Fault::Nothing);
        sx::check(err == (io.hit & fails), "the failure of the sink is the outcome");
        if err {
            sx::check(io.data.len() <= want.len() && eq_bytes(&io.data, &want[..io.data.len()]), "bytes before the failure");
            sx::reach("failed");
        } else {
            sx::check(eq_bytes(&io.data, &want), "file");
            sx::check(size as usize == want.len(), "length");
            if io.hit { sx::reach("survived"); } else { sx::reach("no fault"); }
        }
    }
    // [fault, operations, direct?, then]: nothing is written after a failure
    fn h_after() {
        let s = tree();
        let g = groups(1);
        let mut io = Io::fault(vec![], fault(sx::param(0)), when(sx::param(1)));
        let n;
        {
            let mut w = Writer::new(&mut io, &s, options(true, true), sx::param(2) == 0);
            let mut err = w.write(row_group(&s, &g[0])).is_err();
            if !err { err = w.end().is_err(); }
            if !err { sx::check(true, ""); return; }
            let io = w.into_inner();
            n = io.data.len();
        }
        // the same again, and then other calls
        let when = io.when;
        let mut io = Io::fault(vec![], fault(sx::param(0)), when);
        let mut w = Writer::new(&mut io, &s, options(true, true), sx::param(2) == 0);
        let mut err = w.write(row_group(&s, &g[0])).is_err();
        if !err { err = w.end().is_err(); }
        sx::check(err, "fails again");
        if sx::param(3) == 0 { sx::check(w.write(row_group(&s, &g[0])).is_err(), "write after a failure"); }
        sx::check(w.end().is_err(), "end after a failure");
        sx::check(w.ended(false) == false, "no metadata");
        sx::check(w.into_inner().data.len() == n, "bytes written after a failure");
        sx::reach("after");
    }
    // [split, pend, direct?]: every operation transfers less than asked
    fn h_split_write() {
        let s = tree();
        let g = groups(2);
        let want = full(&s, &g);
        let mut io = Io::split(vec![], sx::param(0), sx::param(1));
        let mut w = Writer::new(&mut io, &s, options(true, true), sx::param(2) == 0);
        for g in &g { sx::check(w.write(row_group(&s, g)).is_ok(), "write"); }
        match w.end() { Ok(n) => sx::check(n as usize == want.len(), "length"), Err(_) => sx::check(false, "end") }
        sx::check(eq_bytes(&io.data, &want), "file");
    }
    // [fault, operations, what is read, column, direct?]: one fault of the source, at any operation
    fn h_read() {
        let s = tree();
        let f = full(&s, &groups(1));
        let m = match read_metadata(&mut std::io::Cursor::new(&f)) { Ok(m) => m, Err(_) => return sx::check(false, "file") };
        let run = |io: &mut Io| if sx::param(4) == 0 { sync(sx::param(2), io, &m, sx::param(3)) } else { asynchronous(sx::param(2), io, &m, sx::param(3)) };
        let want = run(&mut Io::new(f.clone()));
        sx::check(!want.err && (want.v.len() > 2 || matches!(sx::param(2), 2 | 4)), "read without faults");
        let flt = fault(sx::param(0));
        let mut io = Io::fault(f, flt, when(sx::param(1)));
        let got = run(&mut io);
        let fails = matches!(flt, Fault::Error | Fault::Nothing);
        // (an interruption may also be reported)
        sx::check(got.err == (io.hit & fails) || (io.hit && flt == Fault::Interrupted), "the failure of the source is the outcome");
        if got.err {
            sx::check(got.v.len() <= want.v.len() && same(&got.v, &want.v[..got.v.len()]), "what was read before the failure");
            sx::reach("failed");
        } else {
            sx::check(same(&got.v, &want.v), "what is read");
            if io.hit { sx::reach("survived"); } else { sx::reach("no fault"); }
        }
    }
    // [split, pend, what is read, column, direct?]
    fn h_split_read() {
        let s = tree();
        let f = full(&s, &groups(1));
        let m = match read_metadata(&mut std::io::Cursor::new(&f)) { Ok(m) => m, Err(_) => return sx::check(false, "file") };
        let run = |io: &mut Io| if sx::param(4) == 0 { sync(sx::param(2), io, &m, sx::param(3)) } else { asynchronous(sx::param(2), io, &m, sx::param(3)) };
        let want = run(&mut Io::new(f.clone()));
        let got = run(&mut Io::split(f, sx::param(0), sx::param(1)));
        sx::check(!got.err, "split reads fail");
        sx::check(same(&got.v, &want.v), "what is read");
    }
    // [fault, operations, split]: a file of nothing but metadata
    fn h_sidecar() {
        let s = tree();
        let f = full(&s, &groups(1));
        let m = match read_metadata(&mut std::io::Cursor::new(&f)) { Ok(m) => m.into_thrift(), Err(_) => return sx::check(false, "file") };
        let mut want = vec![];
        sx::check(write_metadata_sidecar(&mut want, &m).is_ok() && want.len() > 12, "the file without faults");
        let flt = fault(sx::param(0));
        let mut io = Io::fault(vec![], flt, when(sx::param(1)));
        io.split = sx::param(2);
        let r = write_metadata_sidecar(&mut io, &m);
        sx::check(r.is_err() == (io.hit & matches!(flt, Fault::Error | Fault::Nothing)), "the failure of the sink is the outcome");
        match r {
            Ok(n) => { sx::check(n as usize == want.len() && eq_bytes(&io.data, &want), "file"); sx::reach("written"); }
            Err(_) => { sx::check(io.data.len() <= want.len() && eq_bytes(&io.data, &want[..io.data.len()]), "bytes before the failure"); sx::reach("failed"); }
        }
    }
    // [fault, operations, split]: the bloom filter
    fn h_bloom() {
        let body = sx::bytes(32);
        let mut f = vec![0u8; 4];
        // header of 32 bytes, block algorithm, xxhash, no compression
        f.extend_from_slice(&[0x15, 0x40, 0x1c, 0x1c, 0x00, 0x00, 0x1c, 0x1c, 0x00, 0x00, 0x1c, 0x1c, 0x00, 0x00, 0x00]);
        f.extend_from_slice(&body);
        let s = tree();
        let file = full(&s, &groups(1));
        let m = match read_metadata(&mut std::io::Cursor::new(&file)) { Ok(m) => m, Err(_) => return sx::check(false, "file") };
        let mut c = m.row_groups[0].columns()[0].clone().into_thrift();
        c.meta_data.as_mut().unwrap().bloom_filter_offset = Some(4);
        let c = ColumnChunkMetaData::new(c, m.schema().columns()[0].clone());
        let flt = fault(sx::param(0));
        let mut io = Io::fault(f, flt, when(sx::param(1)));
        io.split = sx::param(2);
        let mut set = vec![1; 40];
        let r = bloom_filter::read(&c, &mut io, &mut set);
        sx::check(r.is_err() == (io.hit & matches!(flt, Fault::Error | Fault::Nothing)) || (io.hit && flt == Fault::Interrupted), "the failure of the source is the outcome");
        if r.is_ok() { sx::check(eq_bytes(&set, &body), "filter"); sx::reach("read"); } else { sx::reach("failed"); }
    }
}
