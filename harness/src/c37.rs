use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::error::Error;
use parquet2::metadata::*;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition::*;
use std::io::Cursor;
use std::sync::Arc;

/// fields whose names are parts of one another, at different levels
fn tree(k: usize) -> SchemaDescriptor {
    use PhysicalType::*;
    let f = match k {
        0 => vec![leaf("a", Int32, Required)],
        1 => vec![leaf("a", Int64, Optional), leaf("aa", ByteArray, Required), leaf("", Boolean, Optional)],
        2 => vec![group("b", Optional, vec![leaf("a", Int32, Repeated), leaf("b", Double, Required)]), leaf("a", Int64, Optional)],
        3 => vec![group("a", Repeated, vec![group("a", Optional, vec![leaf("a", Int32, Required), leaf("c", Int96, Optional)]), leaf("b", Boolean, Required)]), group("b", Required, vec![leaf("a", Int64, Optional)])],
        _ => vec![leaf("c", Int32, Required), group("a", Optional, vec![leaf("c", Int32, Required), leaf("c", Int32, Optional), leaf("a", Int32, Required)]), leaf("b", Float, Repeated)],
    };
    SchemaDescriptor::new("a".to_string(), f)
}
/// row groups of `n` columns with pages of different numbers
fn groups(n: usize, g: usize, seed: usize) -> Vec<Group> {
    (0..g).map(|i| {
        let rows = some();
        (0..n).map(|c| {
            let mut v = column(1 + (seed + c + i) % 2, (seed + c) % 3 == 1, seed + c + 2 * i, 0);
            // the same rows in every column
            let mut first = true;
            for p in v.iter_mut() { if let Spec::Data { rows: r, header, .. } = p { *r = Some(if first { rows } else { 0 }); if let DataPageHeader::V2(h) = header { h.num_rows = r.unwrap() as i32; } first = false; } }
            v
        }).collect()
    }).collect()
}
fn name(k: usize) -> String { ["a", "b", "c", "aa", "", "d"][k].to_string() }
fn written(s: &SchemaDescriptor, g: &[Group]) -> Option<(Vec<u8>, FileMetaData)> {
    let (f, _, _) = write(Cursor::new(vec![]), s, options(false, false), None, g, None).ok()?;
    let f = f.into_inner();
    let m = read_metadata(&mut Cursor::new(&f)).ok()?;
    Some((f, m))
}
/// the pages that are delivered: reading ends once all the values were read
fn same_chunk(c: &ColumnChunkMetaData, s: &SchemaDescriptor, i: usize) -> bool { *c.descriptor() == s.columns()[i] }

harnesses! {
    // [schema, field, row group, seed, filter]: the pages of all columns of a field
    fn h_columns() {
        let s = tree(sx::param(0));
        let field = name(sx::param(1));
        let gs = groups(s.columns().len(), sx::param(2) + 1, sx::param(3));
        let (f, m) = match written(&s, &gs) { Some(x) => x, None => return sx::check(false, "file") };
        let rg = &m.row_groups[sx::param(2)];
        let want: Vec<usize> = (0..s.columns().len()).filter(|i| s.columns()[*i].path_in_schema[0] == field).collect();
        // the chunks
        let got: Vec<_> = get_field_columns(rg.columns(), &field).collect();
        sx::check(got.len() == want.len(), "number of columns of the field");
        for (c, i) in got.iter().zip(&want) { sx::check(same_chunk(c, &s, *i) && c.byte_range() == rg.columns()[*i].byte_range(), "column of the field"); }
        // their bytes
        match read_columns(&mut Cursor::new(&f), rg.columns(), &field) {
            Ok(r) => {
                sx::check(r.len() == want.len(), "number of columns read");
                for ((c, b), i) in r.iter().zip(&want) {
                    let (at, n) = c.byte_range();
                    sx::check(same_chunk(c, &s, *i) && eq_bytes(b, &f[at as usize..(at + n) as usize]), "bytes of the chunk");
                }
            }
            Err(_) => sx::check(false, "columns are not read"),
        }
        // their pages
        let filter: Option<PageFilter> = if sx::param(4) == 1 { Some(Arc::new(|_: &Descriptor, h: &DataPageHeader| matches!(h, DataPageHeader::V1(_)))) } else { None };
        let mut it = get_column_iterator(Cursor::new(&f), rg, &field, filter.clone(), vec![1; 7], 1 << 10);
        sx::check(it.get().is_none(), "column before the first");
        let mut n = 0;
        loop {
            match it.advance() {
                Ok(State::Some(mut x)) => {
                    if n >= want.len() { return sx::check(false, "column of another field"); }
                    let i = want[n];
                    match x.get() {
                        Some((pages, c)) => {
                            sx::check(same_chunk(c, &s, i), "descriptor of the column");
                            for p in &gs[sx::param(2)][i] {
                                if let (Spec::Data { header: DataPageHeader::V2(_), .. }, 1) = (p, sx::param(4)) { continue; }
                                match pages.next() {
                                    Some(Ok(x)) => { check_page(x, p, &s.columns()[i].descriptor); sx::reach("page"); }
                                    _ => sx::check(false, "page"),
                                }
                            }
                            // the second column is left before its end
                            if n != 1 { sx::check(pages.next().is_none(), "additional page"); }
                        }
                        None => sx::check(false, "no column"),
                    }
                    n += 1;
                    it = x;
                }
                Ok(State::Finished(b)) => {
                    // (a page takes the buffer with it)
                    if n == 0 { sx::check(b == [1; 7], "buffer is handed back"); }
                    break
                }
                Err(_) => return sx::check(false, "column"),
            }
        }
        sx::check(n == want.len(), "columns are missing");
        sx::reach("columns");
        if n > 1 { sx::reach("several"); }
        if n == 0 { sx::reach("none"); }
    }
    // [bytes of the name]: a field of any name
    fn h_name() {
        let s = tree(4);
        let gs = groups(s.columns().len(), 1, 0);
        let (_, m) = match written(&s, &gs) { Some(x) => x, None => return sx::check(false, "file") };
        let b: Vec<u8> = sx::bytes(sx::param(0)).into_iter().map(|x| x & 0x7f).collect();
        let field = unsafe { std::str::from_utf8_unchecked(&b) };
        let n = get_field_columns(m.row_groups[0].columns(), field).count();
        let want = if b.len() != 1 { 0 } else if b[0] == b'c' { 1 } else if b[0] == b'a' { 3 } else if b[0] == b'b' { 1 } else { 0 };
        sx::check(n == want, "columns of the name");
        sx::reach("name");
    }
    // [columns, pages]: chunks that were read before
    fn h_read() {
        let s = tree(4);
        let gs = groups(s.columns().len(), 1, sx::param(1));
        let (f, m) = match written(&s, &gs) { Some(x) => x, None => return sx::check(false, "file") };
        let cols = m.row_groups[0].columns();
        let k = sx::param(0);
        let chunks: Vec<_> = (0..k).map(|i| {
            let mut v: Vec<Result<CompressedPage, Error>> = match get_page_iterator(&cols[i], Cursor::new(&f), None, vec![], 1 << 10) { Ok(it) => it.collect(), Err(_) => vec![] };
            if i == 1 { v.push(Err(Error::OutOfSpec("x".to_string()))); }
            (v, cols[i].clone())
        }).collect();
        let mut it = ReadColumnIterator::new(s.fields()[0].clone(), chunks);
        sx::check(it.get().is_none(), "column before the first");
        let mut n = 0;
        loop {
            match it.advance() {
                Ok(State::Some(mut x)) => {
                    if n >= k { return sx::check(false, "additional column"); }
                    match x.get() {
                        Some((pages, c)) => {
                            sx::check(same_chunk(c, &s, n), "order of the columns");
                            for p in &gs[0][n] {
                                match pages.next() { Some(Ok(x)) => check_page(x, p, &s.columns()[n].descriptor), _ => sx::check(false, "page") }
                            }
                            if n == 1 { sx::check(matches!(pages.next(), Some(Err(_))), "error of a page"); }
                            sx::check(pages.next().is_none(), "additional page");
                        }
                        None => sx::check(false, "no column"),
                    }
                    n += 1;
                    it = x;
                    sx::reach("column");
                }
                Ok(State::Finished(_)) => break,
                Err(_) => return sx::check(false, "column"),
            }
        }
        sx::check(n == k, "columns are missing");
        sx::reach("finished");
    }
    // [schema, row groups]: filtering of row groups
    fn h_filter() {
        let s = tree(sx::param(0));
        let g = sx::param(1);
        let gs = groups(s.columns().len(), g, 1);
        let (_, m) = match written(&s, &gs) { Some(x) => x, None => return sx::check(false, "file") };
        let keep: Vec<bool> = (0..g).map(|_| sx::bool()).collect();
        let called = std::cell::Cell::new(0);
        let r = filter_row_groups(&m, &|x, i| {
            sx::check(i == called.get() && x.num_rows() == m.row_groups[i].num_rows(), "row group given to the filter");
            called.set(i + 1);
            keep[i]
        });
        sx::check(called.get() == g, "all row groups are given to the filter");
        let mut n = 0;
        for i in 0..g {
            if keep[i] {
                match r.row_groups.get(n) {
                    Some(x) => {
                        let y = &m.row_groups[i];
                        sx::check((x.num_rows() == y.num_rows()) & (x.total_byte_size() == y.total_byte_size()) & (x.columns().len() == y.columns().len()), "row group");
                        for (a, b) in x.columns().iter().zip(y.columns()) { sx::check(a.byte_range() == b.byte_range() && a.descriptor() == b.descriptor(), "column"); }
                    }
                    None => sx::check(false, "row group is missing"),
                }
                n += 1;
                sx::reach("kept");
            }
        }
        sx::check(n == r.row_groups.len(), "row group that was not kept");
        sx::check((r.version == m.version) & (r.num_rows == m.num_rows), "rows and version");
        sx::check(r.created_by == m.created_by && r.schema().columns() == m.schema().columns() && r.schema().fields() == m.schema().fields() && r.column_orders == m.column_orders, "the rest of the metadata");
        sx::reach("filtered");
    }
    // [how much is missing, column]: chunks that end after the file
    fn h_short() {
        let s = tree(1);
        let gs = groups(s.columns().len(), 1, 1);
        let (f, m) = match written(&s, &gs) { Some(x) => x, None => return sx::check(false, "file") };
        let c = &m.row_groups[0].columns()[sx::param(0)];
        let (at, n) = c.byte_range();
        let mut t = c.column_chunk().clone();
        let x = sx::i64();
        sx::assume(x >= 0);
        t.meta_data.as_mut().unwrap().total_compressed_size = x;
        let d = ColumnChunkMetaData::new(t, c.descriptor().clone());
        let end = (at + n) as usize;
        sx::alloc_limit(1 << 20, true);
        match read_column(&mut Cursor::new(&f[..end]), &d) {
            Ok(b) => {
                sx::check(x as u64 <= n, "chunk beyond the end of the file");
                sx::check(b.len() as i64 == x && eq_bytes(&b, &f[at as usize..at as usize + b.len()]), "bytes of the chunk");
                sx::reach("whole");
            }
            Err(_) => { sx::check(x as u64 > n, "chunk is refused"); sx::reach("short"); }
        }
    }
}
