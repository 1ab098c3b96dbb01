use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::Encoding;
use std::io::Cursor;
use parquet_format_safe::thrift::protocol::TCompactInputProtocol;
use parquet_format_safe::{ColumnIndex, ColumnMetaData, FileMetaData, OffsetIndex, PageHeader, PageType};

/// walks every byte of the file in order, comparing what is found with what is recorded
fn walk(sc: &parquet2::metadata::SchemaDescriptor, f: &[u8], groups: &[Group], length: u64, stats: bool) {
    sx::check(length as usize == f.len(), "returned length");
    sx::check(eq_bytes(&f[..4], b"PAR1") & eq_bytes(&f[f.len() - 4..], b"PAR1"), "magic");
    let mut le = [0u8; 4];
    le.copy_from_slice(&f[f.len() - 8..f.len() - 4]);
    let foot = f.len() - 8 - u32::from_le_bytes(le) as usize;
    let mut c = Cursor::new(&f[foot..f.len() - 8]);
    let m = FileMetaData::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut c, 1 << 20)).unwrap();
    sx::check(c.position() as usize == f.len() - 8 - foot, "footer length");
    sx::check(m.row_groups.len() == groups.len(), "row groups");
    let mut pos = 4usize;
    let mut total_rows = 0i64;
    let mut locations = vec![];
    for (gi, (g, rg)) in groups.iter().zip(&m.row_groups).enumerate() {
        let start = pos;
        let (mut unc, mut com, mut rows) = (0i64, 0i64, 0i64);
        sx::check(rg.columns.len() == g.len(), "columns");
        for (ci, (col, cc)) in g.iter().zip(&rg.columns).enumerate() {
            let md = cc.meta_data.as_ref().unwrap();
            let (mut u, mut k, mut values, mut r) = (0i64, 0i64, 0i64, 0i64);
            let first = pos;
            let mut first_data = None;
            let mut dict = None;
            let mut used: Vec<i32> = vec![];
            let mut locs = vec![];
            for p in col {
                let at = pos;
                let mut c = Cursor::new(&f[pos..]);
                let h = PageHeader::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut c, 1 << 20)).unwrap();
                let hs = c.position() as usize;
                pos += hs;
                let (buf, n) = match p { Spec::Dict { buf, n, .. } => (buf, *n as i64), Spec::Data { header, buf, .. } => (buf, crate::files::values(header)) };
                sx::check(h.compressed_page_size as usize == buf.len(), "size of the page");
                sx::check(h.uncompressed_page_size as usize == buf.len() + larger(), "uncompressed size of the page");
                sx::check(eq_bytes(&f[pos..pos + buf.len()], buf), "page is where the headers say");
                pos += buf.len();
                u += (hs + buf.len() + larger()) as i64;
                k += (hs + buf.len()) as i64;
                match p {
                    Spec::Dict { .. } => {
                        let d = h.dictionary_page_header.as_ref().unwrap();
                        sx::check(h.type_ == PageType::DICTIONARY_PAGE && d.num_values as i64 == n, "dictionary header");
                        dict = Some(at as i64);
                        used.push(d.encoding.0);
                    }
                    Spec::Data { rows, .. } => {
                        let (n2, e) = match (&h.data_page_header, &h.data_page_header_v2) {
                            (Some(d), None) => {
                                if sc.columns()[ci].descriptor.max_def_level > 0 { used.push(d.definition_level_encoding.0); }
                                if sc.columns()[ci].descriptor.max_rep_level > 0 { used.push(d.repetition_level_encoding.0); }
                                (d.num_values, d.encoding.0)
                            }
                            (None, Some(d)) => (d.num_values, d.encoding.0),
                            _ => return sx::check(false, "header of one version"),
                        };
                        sx::check(n2 as i64 == n, "values of the page");
                        used.push(e);
                        values += n;
                        if first_data.is_none() { first_data = Some(at as i64); }
                        locs.push((at as i64, (hs + buf.len()) as i32, r));
                        r += rows.unwrap() as i64;
                    }
                }
            }
            let stored = pos;
            // the metadata of the column follows its pages
            let mut c = Cursor::new(&f[pos..]);
            let md2 = ColumnMetaData::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut c, 1 << 20)).unwrap();
            pos += c.position() as usize;
            sx::check(cc.file_offset as usize == if col.is_empty() { cc.file_offset as usize } else { stored }, "offset of the column's metadata");
            sx::check((md2.num_values == md.num_values) & (md2.total_compressed_size == md.total_compressed_size) & (md2.data_page_offset == md.data_page_offset), "metadata of the column");
            sx::check(md.num_values == values, "values of the chunk");
            sx::check(md.total_uncompressed_size == u && md.total_compressed_size == k, "sizes of the chunk");
            if let Some(x) = first_data { sx::check(md.data_page_offset == x, "offset of the first data page"); }
            match (md.dictionary_page_offset, dict) {
                (Some(a), Some(b)) => sx::check(a == b, "offset of the dictionary"),
                (a, b) => sx::check(a.is_some() == b.is_some(), "presence of the dictionary"),
            }
            for e in used { sx::check(md.encodings.iter().any(|x| x.0 == e), "encoding not listed"); }
            if !col.is_empty() { sx::check(md.codec.0 as usize == codec(), "codec"); }
            if gi == 0 && ci == 0 || !col.is_empty() { sx::reach("column"); }
            if ci == 0 {
                rows = r;
                if !col.is_empty() {
                    sx::check(rg.file_offset == Some(first as i64), "offset of the row group");
                }
            }
            unc += u;
            com += k;
            locations.push(locs);
        }
        sx::check(rg.num_rows == rows, "rows of the row group");
        sx::check(rg.total_byte_size == unc, "size of the row group");
        if let Some(x) = rg.total_compressed_size { sx::check(x == com, "compressed size of the row group"); }
        if let Some(x) = rg.ordinal { sx::check(x as usize == gi, "ordinal"); }
        sx::check(start <= pos, "order");
        total_rows += rows;
    }
    sx::check(m.num_rows == total_rows, "rows of the file");
    // the indexes
    if stats {
        for rg in &m.row_groups {
            for cc in &rg.columns {
                sx::check(cc.column_index_offset == Some(pos as i64), "offset of the column index");
                let mut c = Cursor::new(&f[pos..]);
                let _ = ColumnIndex::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut c, 1 << 20)).unwrap();
                sx::check(cc.column_index_length == Some(c.position() as i32), "length of the column index");
                pos += c.position() as usize;
                sx::reach("column index");
            }
        }
    }
    let mut l = locations.iter();
    for rg in &m.row_groups {
        for cc in &rg.columns {
            sx::check(cc.offset_index_offset == Some(pos as i64), "offset of the offset index");
            let mut c = Cursor::new(&f[pos..]);
            let o = OffsetIndex::read_from_in_protocol(&mut TCompactInputProtocol::new(&mut c, 1 << 20)).unwrap();
            sx::check(cc.offset_index_length == Some(c.position() as i32), "length of the offset index");
            pos += c.position() as usize;
            let l = l.next().unwrap();
            sx::check(o.page_locations.len() == l.len(), "number of locations");
            for (a, b) in o.page_locations.iter().zip(l) {
                sx::check((a.offset == b.0) & (a.compressed_page_size == b.1) & (a.first_row_index == b.2), "location");
            }
        }
    }
    sx::check(pos == foot, "bytes that nothing describes");
    sx::reach("walked");
}
fn go(s: usize, groups: Vec<Group>, stats: bool) {
    let s = schema(s);
    match write(Cursor::new(vec![]), &s, options(stats, false), None, &groups, None) {
        Ok((f, n, _)) => walk(&s, &f.into_inner(), &groups, n, stats),
        Err(_) => sx::check(false, "valid file is refused by the writer"),
    }
}
harnesses! {
    fn h_shape() {
        let (s, ng, np, mode) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
        let cols = schema(s).columns().len();
        let groups: Vec<Group> = (0..ng).map(|g| (0..cols).map(|c| column(np, mode & 1 == 1 || (mode & 2 == 2 && (g + c) % 2 == 0), 3 * g + c + sx::param(4), 0)).collect()).collect();
        go(s, groups, false);
    }
    // [schema, groups, pages, pattern, seed, codec, bytes that compression saves]
    fn h_coded() {
        compressed(sx::param(5), sx::param(6));
        let (s, ng, np, mode) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
        let cols = schema(s).columns().len();
        let groups: Vec<Group> = (0..ng).map(|g| (0..cols).map(|c| column(np, mode & 1 == 1 || (mode & 2 == 2 && (g + c) % 2 == 0), 3 * g + c + sx::param(4), 0)).collect()).collect();
        go(s, groups, false);
    }
    fn h_counts() {
        let any = |x: bool| if x { let n = sx::u32() as i32; sx::assume(n > 0); n } else { some() as i32 };
        let k = sx::param(0);
        let mut pages = vec![Spec::Data { header: v1(any(k & 1 == 1), Encoding::Plain, Encoding::Rle, Encoding::Rle), buf: sx::bytes(2), rows: Some(any(k & 2 == 2) as usize) }];
        if sx::param(1) == 1 {
            pages.push(Spec::Data { header: header_v2(any(k & 4 == 4), 0, Encoding::Plain, 0, 0), buf: sx::bytes(1), rows: Some(any(k & 8 == 8) as usize) });
        }
        go(1, vec![vec![pages]], false);
    }
    fn h_stats() {
        // statistics of width w; the first byte is given, so that how bounds compare is not explored here (C20)
        let w = sx::param(2);
        let st = |i: u8| {
            let b = |x: u8| { let mut v = sx::bytes(w); v[0] = x; v };
            Some(TStats { max: None, min: None, null_count: Some(some() as i64), distinct_count: None, max_value: Some(b(9 + i)), min_value: Some(b(5 + i)) })
        };
        let groups: Vec<Group> = (0..sx::param(0)).map(|g| vec![(0..sx::param(1)).map(|i| {
            let h = match v1(some() as i32, Encoding::Plain, Encoding::Rle, Encoding::Rle) {
                parquet2::page::DataPageHeader::V1(mut h) => { h.statistics = st((g * 2 + i) as u8); parquet2::page::DataPageHeader::V1(h) }
                h => h,
            };
            Spec::Data { header: h, buf: sx::bytes(i), rows: Some(some()) }
        }).collect()]).collect();
        let s = parquet2::metadata::SchemaDescriptor::new("schema".to_string(), vec![leaf("b", parquet2::schema::types::PhysicalType::ByteArray, parquet2::schema::Repetition::Optional)]);
        match write(Cursor::new(vec![]), &s, options(true, false), None, &groups, None) {
            Ok((f, n, _)) => walk(&s, &f.into_inner(), &groups, n, true),
            Err(_) => sx::check(false, "valid file is refused by the writer"),
        }
    }
    fn h_long() {
        let n = sx::param(0);
        let mut b = vec![7u8; n];
        b[n - 1] = sx::u8();
        let c = vec![Spec::Data { header: v1(1, Encoding::Plain, Encoding::Rle, Encoding::Rle), buf: b, rows: Some(some()) }];
        go(1, vec![vec![c.clone()], vec![c]], false);
    }
}
