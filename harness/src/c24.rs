use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::Encoding;
use parquet2::metadata::{KeyValue, SchemaDescriptor};
use parquet2::read::*;
use std::io::Cursor;

fn ascii(n: usize) -> String {
    let b = sx::bytes(n);
    for x in &b { sx::assume(*x < 128); }
    String::from_utf8(b).unwrap()
}
fn rows_of(g: &Group) -> usize {
    g.first().map(|c| c.iter().map(|p| match p { Spec::Data { rows, .. } => rows.unwrap(), _ => 0 }).sum()).unwrap_or(0)
}
/// reads the file back and compares everything
fn back(f: &[u8], s: &SchemaDescriptor, groups: &[Group], by: &Option<String>, kv: &Option<Vec<KeyValue>>, version: i32) {
    let m = match read_metadata(&mut Cursor::new(f)) {
        Ok(m) => m,
        Err(_) => return sx::check(false, "written file is refused"),
    };
    sx::check(m.version == version, "version");
    sx::check(m.schema().fields() == s.fields() && m.schema().name() == s.name(), "schema");
    sx::check(m.schema().columns().len() == s.columns().len(), "columns");
    match (&m.created_by, by) {
        (Some(a), Some(b)) => sx::check(eq_bytes(a.as_bytes(), b.as_bytes()), "creator"),
        (a, b) => sx::check(a.is_some() == b.is_some(), "creator presence"),
    }
    match (&m.key_value_metadata, kv) {
        (Some(a), Some(b)) => {
            sx::check(a.len() == b.len(), "number of key-values");
            for (a, b) in a.iter().zip(b) {
                sx::check(eq_bytes(a.key.as_bytes(), b.key.as_bytes()), "key");
                match (&a.value, &b.value) {
                    (Some(a), Some(b)) => sx::check(eq_bytes(a.as_bytes(), b.as_bytes()), "value"),
                    (a, b) => sx::check(a.is_some() == b.is_some(), "value presence"),
                }
            }
        }
        (a, b) => sx::check(a.is_some() == b.is_some(), "key-values presence"),
    }
    sx::check(m.row_groups.len() == groups.len(), "number of row groups");
    let mut total = 0;
    for (r, g) in m.row_groups.iter().zip(groups) {
        let n = rows_of(g);
        total += n;
        sx::check(r.num_rows() == n, "rows of the row group");
        sx::check(r.columns().len() == g.len(), "columns of the row group");
        for (i, (c, pages)) in r.columns().iter().zip(g).enumerate() {
            sx::check(c.descriptor().path_in_schema == s.columns()[i].path_in_schema, "path");
            let n: i64 = pages.iter().map(|p| match p { Spec::Data { header, .. } => values(header), _ => 0 }).sum();
            sx::check(c.num_values() == n, "values of the chunk");
            let it = match get_page_iterator(c, Cursor::new(f), None, vec![], 1 << 20) {
                Ok(it) => it,
                Err(_) => return sx::check(false, "seek"),
            };
            let mut left = n;
            let mut it = it;
            for p in pages {
                // reading ends once all the values were read
                if left == 0 { break; }
                match it.next() {
                    Some(Ok(x)) => check_page(x, p, &s.columns()[i].descriptor),
                    _ => return sx::check(false, "page missing"),
                }
                if let Spec::Data { header, .. } = p { left -= values(header); }
            }
            sx::check(it.next().is_none(), "additional page");
        }
    }
    sx::check(m.num_rows == total, "rows");
}
fn go(s: usize, groups: Vec<Group>, by: Option<String>, kv: Option<Vec<KeyValue>>, v2: bool, stats: bool) {
    let s = schema(s);
    match write(Cursor::new(vec![]), &s, options(stats, v2), by.clone(), &groups, kv.clone()) {
        Ok((f, n, _)) => {
            let f = f.into_inner();
            sx::check(n as usize == f.len(), "length");
            back(&f, &s, &groups, &by, &kv, 1 + v2 as i32);
            sx::reach("read back");
        }
        Err(_) => sx::check(false, "valid file is refused by the writer"),
    }
}
harnesses! {
    // files of every shape
    fn h_shape() {
        let (s, ng, np, mode) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
        let cols = schema(s).columns().len();
        let groups: Vec<Group> = (0..ng).map(|g| (0..cols).map(|c| column(np, mode & 1 == 1 || (mode & 2 == 2 && (g + c) % 2 == 0), 3 * g + c + sx::param(4), 0)).collect()).collect();
        go(s, groups, None, None, mode & 4 == 4, false);
    }
    // any counts
    fn h_counts() {
        let any = |x: bool| if x { let n = sx::u32() as i32; sx::assume(n > 0); n } else { some() as i32 };
        let k = sx::param(0);
        let mut pages = vec![];
        if sx::param(1) == 1 {
            pages.push(Spec::Dict { buf: sx::bytes(2), n: any(k & 4 == 4) as usize, sorted: sx::bool() });
        }
        pages.push(Spec::Data { header: v1(any(k & 1 == 1), Encoding::Plain, Encoding::Rle, Encoding::Rle), buf: sx::bytes(2), rows: Some(any(k & 2 == 2) as usize) });
        if sx::param(1) == 2 {
            pages.push(Spec::Data { header: header_v2(any(k & 4 == 4), 3, Encoding::Plain, 0, 0), buf: sx::bytes(1), rows: Some(any(k & 8 == 8) as usize) });
        }
        go(1, vec![vec![pages]], None, None, false, false);
    }
    // every field of a page header
    fn h_header() {
        let opt = |n: usize| if sx::flag() { Some(sx::bytes(n)) } else { None };
        let st = if sx::param(0) & 1 == 1 {
            Some(TStats { max: None, min: None, null_count: if sx::flag() { Some(sx::i64() >> sx::param(2)) } else { None }, distinct_count: None, max_value: opt(4), min_value: opt(4) })
        } else { None };
        let n = some() as i32;
        let h = if sx::param(0) & 2 == 0 {
            match v1(n, Encoding::Plain, Encoding::Rle, Encoding::BitPacked) {
                parquet2::page::DataPageHeader::V1(mut h) => { h.statistics = st; parquet2::page::DataPageHeader::V1(h) }
                h => h,
            }
        } else {
            match header_v2(n, 0, Encoding::Plain, 0, 0) {
                parquet2::page::DataPageHeader::V2(mut h) => {
                    h.statistics = st;
                    match sx::param(1) {
                        0 => h.num_nulls = sx::i32(),
                        1 => h.num_rows = sx::i32(),
                        2 => h.definition_levels_byte_length = sx::i32(),
                        3 => h.repetition_levels_byte_length = sx::i32(),
                        _ => h.is_compressed = if sx::flag() { Some(sx::bool()) } else { None },
                    }
                    parquet2::page::DataPageHeader::V2(h)
                }
                h => h,
            }
        };
        go(1, vec![vec![vec![Spec::Data { header: h, buf: sx::bytes(3), rows: Some(7) }]]], None, None, false, false);
    }
    // creator and key-value metadata
    fn h_meta() {
        let by = if sx::flag() { Some(ascii(sx::param(0))) } else { None };
        let n = sx::param(1);
        let kv = if n == 0 { None } else {
            Some((1..n).map(|i| KeyValue { key: ascii(i % 3), value: if sx::flag() { Some(ascii((i + sx::param(2)) % 4)) } else { None } }).collect())
        };
        let g: Vec<Group> = if sx::param(3) == 1 { vec![vec![column(1, false, 0, 0)]] } else { vec![] };
        go(1, g, by, kv, sx::flag(), false);
    }
    // with statistics written (and so the column indexes between the data and the footer)
    fn h_with_indexes() {
        let st = |min: u32, max: u32| Some(TStats { max: None, min: None, null_count: Some(0), distinct_count: None, max_value: Some(max.to_le_bytes().to_vec()), min_value: Some(min.to_le_bytes().to_vec()) });
        let pages = (0..sx::param(0)).map(|_| {
            let n = some() as i32;
            let h = match v1(n, Encoding::Plain, Encoding::Rle, Encoding::Rle) {
                parquet2::page::DataPageHeader::V1(mut h) => { h.statistics = st(sx::u32(), sx::u32()); parquet2::page::DataPageHeader::V1(h) }
                h => h,
            };
            Spec::Data { header: h, buf: sx::bytes(2), rows: Some(some()) }
        }).collect();
        go(1, vec![vec![pages]], None, None, true, true);
    }
    // pages larger than the buffers of the readers and writers
    fn h_long() {
        let n = sx::param(0);
        let mut b = vec![7u8; n];
        for i in 0..8 { b[i * (n - 1) / 7] = sx::u8(); }
        let c = vec![Spec::Data { header: v1(1, Encoding::Plain, Encoding::Rle, Encoding::Rle), buf: b, rows: Some(1) }];
        go(1, vec![vec![c.clone()], vec![c]], None, None, false, false);
    }
}
