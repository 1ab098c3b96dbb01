use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::compression::Compression;
use parquet2::encoding::Encoding;
use parquet2::indexes::*;
use parquet2::metadata::Descriptor;
use parquet2::page::*;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as tf;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use std::io::Cursor;

fn desc() -> Descriptor { descriptor(PhysicalType::Int64, Repetition::Optional, 1, 0) }
fn locations(k: usize, mode: usize) -> Vec<PageLocation> {
    let mut at = 0i64;
    (0..k).map(|_| {
        let x = sx::u16() as i64;
        // 0: increasing, 1: anything
        let first = if mode == 0 { let a = at; at += x; a } else { sx::i64() };
        PageLocation { offset: if mode == 0 { sx::u32() as i64 } else { sx::i64() }, compressed_page_size: if mode == 0 { (sx::u32() >> 1) as i32 } else { sx::i32() }, first_row_index: first }
    }).collect()
}
fn intervals(k: usize, mode: usize) -> Vec<Interval> {
    (0..k).map(|_| if mode == 0 { Interval::new(sx::u16() as usize, sx::u16() as usize) } else { Interval::new(sx::usize(), sx::usize()) }).collect()
}
/// whether the locations are increasing and within the rows
fn consistent(l: &[PageLocation], rows: usize) -> bool {
    let mut ok = true;
    for i in 0..l.len() {
        ok &= l[i].first_row_index >= 0;
        ok &= if i + 1 < l.len() { l[i].first_row_index <= l[i + 1].first_row_index } else { l[i].first_row_index as u64 <= rows as u64 };
    }
    ok
}
fn range(l: &[PageLocation], i: usize, rows: usize) -> (usize, usize) {
    (l[i].first_row_index as usize, if i + 1 < l.len() { l[i + 1].first_row_index as usize } else { rows })
}

fn header(s: &Spec) -> tf::PageHeader {
    let (t, n) = match s { Spec::Dict { buf, .. } => (2, buf.len()), Spec::Data { header: DataPageHeader::V1(_), buf, .. } => (0, buf.len()), Spec::Data { buf, .. } => (3, buf.len()) };
    let mut h = tf::PageHeader { type_: tf::PageType(t), uncompressed_page_size: n as i32, compressed_page_size: n as i32, crc: None, data_page_header: None, index_page_header: None, dictionary_page_header: None, data_page_header_v2: None };
    match s {
        Spec::Dict { n, sorted, .. } => h.dictionary_page_header = Some(tf::DictionaryPageHeader { num_values: *n as i32, encoding: Encoding::Plain.into(), is_sorted: Some(*sorted) }),
        Spec::Data { header: DataPageHeader::V1(x), .. } => h.data_page_header = Some(x.clone()),
        Spec::Data { header: DataPageHeader::V2(x), .. } => h.data_page_header_v2 = Some(x.clone()),
    }
    h
}
fn body(s: &Spec) -> &Vec<u8> { match s { Spec::Dict { buf, .. } | Spec::Data { buf, .. } => buf } }
/// bytes of the pages after `prefix` bytes, and the place of each page; pages may be in any order in the file
fn file(v: &[Spec], prefix: usize, gap: usize) -> (Vec<u8>, Vec<(usize, usize)>) {
    let mut f = vec![7u8; prefix];
    let mut places = vec![];
    for p in v {
        let at = f.len();
        header(p).write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut f)).unwrap();
        f.extend_from_slice(body(p));
        places.push((at, f.len() - at));
        f.extend_from_slice(&vec![0xffu8; gap]);
    }
    (f, places)
}
fn meta(start: u64) -> PageMetaData { PageMetaData::new(start, 10, Compression::Uncompressed, desc()) }

harnesses! {
    // [pages, intervals, mode]: rows of pages that are selected
    fn h_select() {
        let l = locations(sx::param(0), sx::param(2));
        let iv = intervals(sx::param(1), sx::param(2));
        let rows = if sx::param(2) == 0 { sx::u16() as usize + l.last().map(|x| x.first_row_index as usize).unwrap_or(0) } else { sx::usize() };
        let mut good = consistent(&l, rows) | l.is_empty();
        for x in &l { good &= (x.offset >= 0) & (x.compressed_page_size >= 0); }
        match select_pages(&iv, &l, rows) {
            Ok(p) => {
                sx::check(good, "inconsistent locations are accepted");
                sx::check(p.len() == l.len(), "one per page");
                for (i, (p, x)) in p.iter().zip(&l).enumerate() {
                    let (a, b) = range(&l, i, rows);
                    sx::check((p.start == x.offset as u64) & (p.length == x.compressed_page_size as usize), "place");
                    sx::check(p.num_rows == b - a, "rows of the page");
                    let mut k = 0;
                    for v in &iv {
                        // the rows of the interval that are in the page
                        // (rows are below 2^64 - 1, so that an end beyond it is the same as there)
                        let end = v.start.saturating_add(v.length);
                        let s = if v.start < a { a } else { v.start };
                        let e = if end < b { end } else { b };
                        if s < e {
                            match p.selected_rows.get(k) {
                                Some(r) => sx::check((r.start == s - a) & (r.length == e - s), "selected rows"),
                                None => sx::check(false, "rows are missing"),
                            }
                            k += 1;
                            sx::reach("overlap");
                        }
                    }
                    sx::check(k == p.selected_rows.len(), "rows that were not requested");
                }
                sx::reach("selected");
            }
            Err(_) => { sx::check(!good, "consistent locations are refused"); sx::reach("refused"); }
        }
    }
    // [pages, mode]: the rows of every page, and those of a selection of pages
    fn h_rows() {
        let l = locations(sx::param(0), sx::param(1));
        let rows = if sx::param(1) == 0 { sx::u16() as usize + l.last().map(|x| x.first_row_index as usize).unwrap_or(0) } else { sx::usize() };
        let good = consistent(&l, rows) | l.is_empty();
        let sel: Vec<bool> = (0..l.len()).map(|_| sx::flag()).collect();
        match compute_rows(&sel, &l, rows) {
            Ok(r) => {
                sx::check(good, "inconsistent locations are accepted");
                let mut k = 0;
                for (i, s) in sel.iter().enumerate() {
                    if *s {
                        let (a, b) = range(&l, i, rows);
                        match r.get(k) {
                            Some(r) => sx::check((r.start == a) & (r.length == b - a), "rows of the page"),
                            None => sx::check(false, "page is missing"),
                        }
                        k += 1;
                        sx::reach("page");
                    }
                }
                sx::check(k == r.len(), "pages that were not selected");
                sx::reach("rows");
            }
            Err(_) => { sx::check(!good, "consistent locations are refused"); sx::reach("refused"); }
        }
    }
    // [k, dict, gap, prefix]: the selected pages are delivered, dictionary first
    fn h_read() {
        let k = sx::param(0);
        let mut v = column(k, sx::param(1) == 1, sx::param(2) + k, 0);
        // rows of each page: the same as in the index
        let (f, places) = file(&v, sx::param(3), sx::param(2));
        let d = desc();
        let first = sx::param(1);
        let mut filtered = vec![];
        let mut want = vec![];
        for i in first..v.len() {
            let n = sx::choose(3);
            let rows: Vec<Interval> = (0..n).map(|_| Interval::new(sx::usize(), sx::usize())).collect();
            if n > 0 { want.push((i, rows.clone())); }
            filtered.push(FilteredPage { start: places[i].0 as u64, length: places[i].1, selected_rows: rows, num_rows: sx::usize() });
        }
        let mut it = IndexedPageReader::new_with_page_meta(Cursor::new(&f), meta(sx::param(3) as u64), filtered, vec![3; sx::param(2)], vec![4; 9]);
        if first == 1 && k > 0 {
            match it.next() {
                Some(Ok(p)) => { check_page(p, &v[0], &d); sx::reach("dictionary"); }
                _ => return sx::check(false, "dictionary"),
            }
        }
        for (i, rows) in want {
            match it.next() {
                Some(Ok(p)) => {
                    if let CompressedPage::Data(p) = &p {
                        let r = p.selected_rows().unwrap_or(&[]);
                        sx::check(r.len() == rows.len(), "number of intervals");
                        for (a, b) in r.iter().zip(&rows) { sx::check((a.start == b.start) & (a.length == b.length), "rows of the page"); }
                    }
                    check_page(p, &v[i], &d);
                    sx::reach("page");
                }
                _ => return sx::check(false, "page"),
            }
        }
        for _ in 0..2 { sx::check(it.next().is_none(), "no more pages"); }
        v.clear();
        sx::reach("end");
    }
    // [what, kind]: wrong places and wrong kinds of pages
    fn h_wrong() {
        let kind = sx::param(1);
        let v = vec![
            Spec::Dict { buf: sx::bytes(2), n: some(), sorted: false },
            column(1, false, kind, 2).remove(0),
            column(1, false, kind + 1, 3).remove(0),
        ];
        let (f, places) = file(&v, 5, 0);
        let d = desc();
        let rows = vec![Interval::new(0, 1)];
        let page = |at: u64, n: usize| FilteredPage { start: at, length: n, selected_rows: rows.clone(), num_rows: 3 };
        let (at, n) = (places[1].0 as u64, places[1].1);
        sx::alloc_limit(1 << 20, true);
        let mut expect = 1;
        let (column, first) = match sx::param(0) {
            // any length
            0 => (at, page(at, sx::usize())),
            // before the column
            1 => { expect = 2; (at, page(at - 1 - (sx::u8() & 1) as u64, n)) }
            // past the end of the file
            2 => { expect = 2; let x = sx::usize(); sx::assume(x >= f.len()); (x as u64, page(x as u64, sx::usize())) }
            // a dictionary instead of a data page
            3 => { expect = 2; (5, page(5, places[0].1)) }
            // a data page instead of a dictionary
            4 => { expect = 2; (at, page(places[2].0 as u64, places[2].1)) }
            // the first page is anywhere after the column, which has no dictionary there
            _ => { let x = sx::usize(); sx::assume(x as u64 > at); (at, page(x as u64, n)) }
        };
        let len = first.length;
        let mut it = IndexedPageReader::new_with_page_meta(Cursor::new(&f), meta(column), vec![first, page(places[2].0 as u64, places[2].1)], vec![], vec![]);
        match (it.next(), expect) {
            (Some(Ok(p)), 1) => {
                sx::check(sx::param(0) == 0 && len >= n, "page that is not there");
                check_page(p, &v[1], &d);
                sx::reach("long enough");
            }
            (Some(Err(_)), _) => { sx::check(expect == 2 || sx::param(0) == 5 || len < n, "good page is refused"); sx::reach("refused"); }
            _ => sx::check(false, "wrong place is accepted"),
        }
        // the others are at their place
        if sx::param(0) == 0 {
            match it.next() {
                Some(Ok(p)) => { check_page(p, &v[2], &d); sx::reach("following"); }
                _ => sx::check(false, "following page"),
            }
        }
    }
    // [kind, field]: header fields of an indexed page with any value
    fn h_header() {
        let s = match sx::param(0) { 0 => column(1, false, 0, 3).remove(0), 1 => column(1, false, 1, 3).remove(0), _ => Spec::Dict { buf: sx::bytes(3), n: 1, sorted: false } };
        let mut h = header(&s);
        let x = sx::i32();
        let good = match sx::param(1) {
            0 => { h.compressed_page_size = x; (x >= 0) & (x <= 3) }
            1 => { h.uncompressed_page_size = x; x >= 0 }
            _ => { h.type_ = tf::PageType(x); x == h_type(sx::param(0)) }
        };
        let mut f = vec![];
        h.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut f)).unwrap();
        f.extend_from_slice(body(&s));
        let n = f.len();
        // a dictionary is followed by a data page
        let data = column(1, false, 0, 1).remove(0);
        let dict = sx::param(0) == 2;
        header(&data).write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut f)).unwrap();
        f.extend_from_slice(body(&data));
        let all = f.len();
        let place = if dict { (n, all - n) } else { (0, n) };
        let p = FilteredPage { start: place.0 as u64, length: place.1, selected_rows: vec![Interval::new(0, 1)], num_rows: 1 };
        let mut it = IndexedPageReader::new_with_page_meta(Cursor::new(&f), meta(0), vec![p], vec![], vec![]);
        sx::alloc_limit(1 << 20, true);
        match it.next() {
            Some(Ok(p)) => {
                sx::check(good, "invalid page is accepted");
                match &p {
                    CompressedPage::Data(p) => sx::check(!dict & (p.compressed_size() == h.compressed_page_size as usize) & (p.uncompressed_size() == h.uncompressed_page_size as usize), "sizes"),
                    CompressedPage::Dict(_) => sx::check(dict, "kind"),
                }
                sx::reach("good");
            }
            Some(Err(_)) => { sx::check(!good, "valid page is refused"); sx::reach("bad"); }
            None => sx::check(false, "no page"),
        }
    }
    // [rows, intervals]: selection of rows and reading together: every requested row is delivered once
    fn h_both() {
        let v = column(3, true, 1, 0);
        let (f, places) = file(&v, 4, 0);
        let mut at = 0u64;
        let l: Vec<PageLocation> = (1..4).map(|i| {
            let a = at;
            at += some() as u64;
            PageLocation { offset: places[i].0 as i64, compressed_page_size: places[i].1 as i32, first_row_index: a as i64 }
        }).collect();
        let rows = at as usize;
        // one row
        let row = sx::usize();
        let iv = vec![Interval::new(row, 1)];
        let pages = match select_pages(&iv, &l, rows) { Ok(p) => p, Err(_) => return sx::check(false, "selection") };
        let mut it = IndexedPageReader::new_with_page_meta(Cursor::new(&f), meta(4), pages, vec![], vec![]);
        match it.next() { Some(Ok(p)) => check_page(p, &v[0], &desc()), _ => return sx::check(false, "dictionary") }
        match it.next() {
            Some(Ok(CompressedPage::Data(p))) => {
                sx::check(row < rows, "row that does not exist");
                let r = p.selected_rows().unwrap_or(&[]).to_vec();
                sx::check(r.len() == 1 && r[0].length == 1, "one row");
                let i = if row < l[1].first_row_index as usize { 0 } else if row < l[2].first_row_index as usize { 1 } else { 2 };
                sx::check(r[0].start == row - l[i].first_row_index as usize, "position of the row");
                check_page(CompressedPage::Data(p), &v[i + 1], &desc());
                sx::check(it.next().is_none(), "one page");
                sx::reach("row");
            }
            None => { sx::check(row >= rows, "row is missing"); sx::reach("no row"); }
            _ => sx::check(false, "page"),
        }
    }
}
fn h_type(k: usize) -> i32 { [0, 3, 2][k] }
