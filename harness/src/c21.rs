use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::Encoding;
use parquet2::indexes::*;
use parquet2::metadata::*;
use parquet2::page::DataPageHeader;
use parquet2::read::*;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe::thrift::protocol::TCompactOutputProtocol;
use parquet_format_safe::{ColumnIndex, OffsetIndex};
use std::io::Cursor;

const TYPES: [PhysicalType; 8] = [PhysicalType::Boolean, PhysicalType::Int32, PhysicalType::Int64, PhysicalType::Int96, PhysicalType::Float, PhysicalType::Double, PhysicalType::ByteArray, PhysicalType::FixedLenByteArray(3)];
const SIZE: [usize; 8] = [1, 4, 8, 12, 4, 8, usize::MAX, 3];

#[derive(Clone)]
struct Bound { n: i64, nulls: i64, min: Option<Vec<u8>>, max: Option<Vec<u8>>, rows: usize, body: usize }
fn page(b: &Bound, v2: bool) -> Spec {
    let st = Some(TStats { max: None, min: None, null_count: Some(b.nulls), distinct_count: None, max_value: b.max.clone(), min_value: b.min.clone() });
    let header = if v2 {
        match header_v2(b.n as i32, 1, Encoding::Plain, 0, 0) { DataPageHeader::V2(mut h) => { h.statistics = st; DataPageHeader::V2(h) } h => h }
    } else {
        match v1(b.n as i32, Encoding::Plain, Encoding::Rle, Encoding::Rle) { DataPageHeader::V1(mut h) => { h.statistics = st; DataPageHeader::V1(h) } h => h }
    };
    Spec::Data { header, buf: sx::bytes(b.body), rows: Some(b.rows) }
}
/// the parts of an index, whatever its type; bounds in their stored form
fn parts(i: &dyn Index, k: usize) -> Option<(BoundaryOrder, Vec<(Option<Vec<u8>>, Option<Vec<u8>>, Option<i64>)>)> {
    fn native<T: parquet2::types::NativeType>(i: &dyn Index) -> Option<(BoundaryOrder, Vec<(Option<Vec<u8>>, Option<Vec<u8>>, Option<i64>)>)> {
        let i = i.as_any().downcast_ref::<NativeIndex<T>>()?;
        let b = |x: &Option<T>| x.map(|x| x.to_le_bytes().as_ref().to_vec());
        Some((i.boundary_order, i.indexes.iter().map(|x| (b(&x.min), b(&x.max), x.null_count)).collect()))
    }
    match k {
        0 => { let i = i.as_any().downcast_ref::<BooleanIndex>()?; let b = |x: &Option<bool>| x.map(|x| vec![x as u8]); Some((i.boundary_order, i.indexes.iter().map(|x| (b(&x.min), b(&x.max), x.null_count)).collect())) }
        1 => native::<i32>(i),
        2 => native::<i64>(i),
        3 => native::<[u32; 3]>(i),
        4 => native::<f32>(i),
        5 => native::<f64>(i),
        6 => { let i = i.as_any().downcast_ref::<ByteIndex>()?; Some((i.boundary_order, i.indexes.iter().map(|x| (x.min.clone(), x.max.clone(), x.null_count)).collect())) }
        _ => { let i = i.as_any().downcast_ref::<FixedLenByteIndex>()?; Some((i.boundary_order, i.indexes.iter().map(|x| (x.min.clone(), x.max.clone(), x.null_count)).collect())) }
    }
}
fn check(i: &dyn Index, k: usize, want: &[Bound]) {
    sx::check(*i.physical_type() == TYPES[k], "physical type");
    let (order, got) = match parts(i, k) { Some(x) => x, None => return sx::check(false, "type of the index") };
    sx::check(order == BoundaryOrder::Unordered, "order of the bounds");
    sx::check(got.len() == want.len(), "number of pages");
    for (a, b) in got.iter().zip(want) {
        sx::check(same_opt(&a.0, &b.min), "minimum");
        sx::check(same_opt(&a.1, &b.max), "maximum");
        sx::check(same_i(a.2, Some(b.nulls)), "number of nulls");
    }
    sx::reach("index");
}
fn put<W: std::io::Write>(w: &mut W, i: &ColumnIndex) -> usize { i.write_to_out_protocol(&mut TCompactOutputProtocol::new(w)).unwrap() }
/// the chunk of a column of which only the places of its indexes matter
fn chunk(k: usize, ci: (Option<i64>, Option<i32>), oi: (Option<i64>, Option<i32>)) -> ColumnChunkMetaData {
    let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", TYPES[k], Repetition::Optional)]);
    ColumnChunkMetaData::new(
        parquet_format_safe::ColumnChunk { file_path: None, file_offset: 0, meta_data: None, offset_index_offset: oi.0, offset_index_length: oi.1, column_index_offset: ci.0, column_index_length: ci.1, crypto_metadata: None, encrypted_column_metadata: None },
        s.columns()[0].clone(),
    )
}
/// a value of type k whose most significant byte is given when pages are compared with each other
fn value(k: usize, i: usize, n: usize) -> Vec<u8> {
    let w = if k == 6 { 1 + i % 3 } else { SIZE[k] };
    let mut v = sx::bytes(w);
    if k == 0 { v[0] &= 1; } else if n > 1 && k < 6 {
        v[w - 1] = i as u8 + 1;
    } else if n > 1 { v[0] = i as u8 + 1; }
    if k == 3 && n > 1 { for i in 4..12 { v[i] = i as u8; } }
    v
}
harnesses! {
    // P: type, groups, pages per column, which pages are null (bits), dictionary
    fn h_written() {
        let (k, ng, np, nulls, dict) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", TYPES[k], Repetition::Optional), leaf("b", PhysicalType::Int32, Repetition::Required)]);
        let mut groups: Vec<Group> = vec![];
        let mut want = vec![];
        let mut specs = vec![];
        for g in 0..ng {
            let mut b: Vec<Bound> = vec![];
            for i in 0..np {
                let n = some() as i64;
                let null = (nulls >> i) & 1 == 1;
                b.push(Bound {
                    n, nulls: if null { n } else { (sx::u8() & 7) as i64 }, rows: some(), body: i,
                    min: if null { None } else { Some(value(k, 2 * i, np)) },
                    // a page of nulls may come with one bound: it has none to speak of
                    max: if null { None } else { Some(value(k, 2 * i + 1, np)) },
                });
            }
            let other = Bound { n: 2, nulls: 0, min: Some(vec![1, 0, 0, 0]), max: Some(vec![2 + g as u8, 0, 0, 0]), rows: 5, body: 1 };
            let mut pages: Vec<Spec> = b.iter().enumerate().map(|(i, b)| page(b, (i + g) % 2 == 1)).collect();
            specs.push(pages.clone());
            if dict == 1 { pages.insert(0, Spec::Dict { buf: sx::bytes(2), n: 1, sorted: false }); }
            groups.push(vec![pages, vec![page(&other, false)]]);
            want.push((b, vec![other]));
        }
        let f = match write(Cursor::new(vec![]), &s, options(true, false), None, &groups, None) {
            Ok((f, _, _)) => f.into_inner(),
            Err(_) => return sx::check(false, "refused by the writer"),
        };
        let m = match read_metadata(&mut Cursor::new(&f)) { Ok(m) => m, Err(_) => return sx::check(false, "refused by the reader") };
        for (gi, r) in m.row_groups.iter().enumerate() {
            match read_columns_indexes(&mut Cursor::new(&f), r.columns()) {
                Ok(i) => {
                    sx::check(i.len() == 2, "number of indexes");
                    check(i[0].as_ref(), k, &want[gi].0);
                    check(i[1].as_ref(), 1, &want[gi].1);
                }
                Err(_) => return sx::check(false, "column indexes are refused"),
            }
            match read_pages_locations(&mut Cursor::new(&f), r.columns()) {
                Ok(l) => {
                    sx::check(l.len() == 2 && l[0].len() == np && l[1].len() == 1, "number of locations");
                    let mut row = 0i64;
                    let mut at = r.columns()[0].data_page_offset();
                    for (i, l) in l[0].iter().enumerate() {
                        sx::check(l.first_row_index == row, "first row");
                        row += want[gi].0[i].rows as i64;
                        sx::check(l.offset == at, "offset");
                        at += l.compressed_page_size as i64;
                        // the page ends with its body
                        if let Spec::Data { buf, .. } = &specs[gi][i] {
                            let e = at as usize;
                            sx::check(eq_bytes(&f[e - buf.len()..e], buf), "size");
                        }
                    }
                    let (a, n) = r.columns()[0].byte_range();
                    if np > 0 { sx::check(at as u64 == a + n, "sizes add up to the chunk"); }
                    sx::reach("locations");
                }
                Err(_) => sx::check(false, "offset indexes are refused"),
            }
        }
    }
    // a page that misses a bound or its number of nulls is refused, unless it only has nulls
    fn h_missing_bounds() {
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
        let (min, max, nulls, st) = (sx::flag(), sx::flag(), sx::choose(3), sx::flag());
        let mut h = DataPageHeaderV1x(3);
        if st {
            h.statistics = Some(TStats { max: None, min: None, distinct_count: None, null_count: [None, Some(3), Some(1)][nulls], min_value: if min { Some(vec![1, 0, 0, 0]) } else { None }, max_value: if max { Some(vec![1, 0, 0, 0]) } else { None } });
        }
        let pages = vec![Spec::Data { header: DataPageHeader::V1(h), buf: vec![], rows: Some(3) }];
        let r = write(Cursor::new(vec![]), &s, options(true, false), None, &[vec![pages]], None);
        let ok = st && nulls != 0 && (min && max || !min && nulls == 1);
        sx::check(r.is_ok() == ok, "statistics that an index can represent");
        if let Ok((f, _, _)) = r {
            let f = f.into_inner();
            let m = read_metadata(&mut Cursor::new(&f)).unwrap();
            let i = read_columns_indexes(&mut Cursor::new(&f), m.row_groups[0].columns()).unwrap();
            let (_, p) = parts(i[0].as_ref(), 1).unwrap();
            sx::check(p[0].0.is_some() == min && p[0].1.is_some() == min, "null page");
            sx::reach("accepted");
        } else {
            sx::reach("refused");
        }
    }
    // any selection of the chunks of a file, in any order
    fn h_subset() {
        let n = sx::param(0);
        let s = SchemaDescriptor::new("s".to_string(), (0..3).map(|i| leaf(["a", "b", "c"][i], PhysicalType::Int32, Repetition::Optional)).collect());
        let b: Vec<Vec<Bound>> = (0..2).map(|g| (0..3).map(|c| Bound { n: 9, nulls: (c + g) as i64, min: Some(vec![sx::u8(), sx::u8(), c as u8, g as u8]), max: Some(vec![0, 0, 9, 9]), rows: some(), body: 0 }).collect()).collect();
        let groups: Vec<Group> = b.iter().map(|g| g.iter().map(|b| vec![page(b, false)]).collect()).collect();
        let (f, _, _) = write(Cursor::new(vec![]), &s, options(true, false), None, &groups, None).unwrap();
        let f = f.into_inner();
        let m = read_metadata(&mut Cursor::new(&f)).unwrap();
        let mut chunks = vec![];
        let mut want = vec![];
        for _ in 0..n {
            let (g, c) = (sx::choose(2), sx::choose(3));
            chunks.push(m.row_groups[g].columns()[c].clone());
            want.push((g, c));
        }
        let i = read_columns_indexes(&mut Cursor::new(&f), &chunks).unwrap();
        let l = read_pages_locations(&mut Cursor::new(&f), &chunks).unwrap();
        sx::check(i.len() == n && l.len() == n, "one per chunk");
        for (j, (g, c)) in want.into_iter().enumerate() {
            check(i[j].as_ref(), 1, &b[g][c..=c]);
            sx::check(l[j].len() == 1 && l[j][0].offset == m.row_groups[g].columns()[c].data_page_offset(), "location");
            sx::reach("subset");
        }
    }
    // many pages
    fn h_many() {
        let (k, n) = (sx::param(0), sx::param(1));
        let s = SchemaDescriptor::new("s".to_string(), vec![leaf("a", TYPES[k], Repetition::Optional)]);
        let w = if k == 6 { 0 } else { SIZE[k] };
        let b: Vec<Bound> = (0..n).map(|i| Bound { n: 1, nulls: if i == n / 2 { (sx::u8() & 7) as i64 } else { 0 }, min: Some(vec![0; w]), max: Some(vec![1; w]), rows: 1, body: 0 }).collect();
        let (f, _, _) = write(Cursor::new(vec![]), &s, options(true, false), None, &[vec![b.iter().map(|b| page(b, false)).collect()]], None).unwrap();
        let f = f.into_inner();
        let m = read_metadata(&mut Cursor::new(&f)).unwrap();
        match read_columns_indexes(&mut Cursor::new(&f), m.row_groups[0].columns()) {
            Ok(i) => check(i[0].as_ref(), k, &b),
            Err(_) => sx::check(false, "column index of many pages is refused"),
        }
        match read_pages_locations(&mut Cursor::new(&f), m.row_groups[0].columns()) {
            Ok(l) => sx::check(l[0].len() == n && l[0][n - 1].first_row_index == n as i64 - 1, "locations of many pages"),
            Err(_) => sx::check(false, "offset index of many pages is refused"),
        }
    }
    // P: type, lengths of the lists of null pages, minima, maxima, counts (9: absent), width of the bounds
    fn h_lists() {
        let k = sx::param(0);
        let (a, b, c, d, w) = (sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
        let null: Vec<bool> = (0..a).map(|_| sx::flag()).collect();
        let order = sx::u8() as i32 >> 5;
        let index = ColumnIndex {
            null_pages: null.clone(),
            min_values: (0..b).map(|_| sx::bytes(w)).collect(),
            max_values: (0..c).map(|i| sx::bytes(if i == 0 { w } else { w.max(1) })).collect(),
            boundary_order: parquet_format_safe::BoundaryOrder(order),
            null_counts: if d == 9 { None } else { Some((0..d).map(|i| if i == 0 { sx::i32() as i64 } else { -1 }).collect()) },
        };
        let mut f = vec![7, 7];
        let n = put(&mut f, &index);
        f.extend_from_slice(&[7; 3]);
        let r = read_columns_indexes(&mut Cursor::new(&f), &[chunk(k, (Some(2), Some(n as i32)), (None, None))]);
        let mut ok = a == b && b == c && (d == 9 || d == a) && order <= 2;
        for (i, x) in null.iter().enumerate() {
            if !x && i < b && i < c && k < 6 { ok &= index.min_values[i].len() == SIZE[k] && index.max_values[i].len() == SIZE[k]; }
        }
        sx::check(r.is_ok() == ok, "accepted exactly when the lists agree and bounds are of the type");
        if let Ok(i) = r {
            let (o, p) = match parts(i[0].as_ref(), k) { Some(x) => x, None => return sx::check(false, "type of the index") };
            sx::check(o == [BoundaryOrder::Unordered, BoundaryOrder::Ascending, BoundaryOrder::Descending][sx::concrete(order as usize)], "order of the bounds");
            sx::check(p.len() == a, "number of pages");
            for (i, p) in p.iter().enumerate() {
                let b = |x: &Vec<u8>| if null[i] { None } else if k == 0 { Some(vec![(x[0] == 1) as u8]) } else { Some(x.clone()) };
                sx::check(same_opt(&p.0, &b(&index.min_values[i])), "minimum");
                sx::check(same_opt(&p.1, &b(&index.max_values[i])), "maximum");
                sx::check(same_i(p.2, index.null_counts.as_ref().map(|x| x[i])), "number of nulls");
            }
            sx::reach("accepted list");
        } else {
            sx::reach("refused list");
        }
    }
    // any places of the indexes
    fn h_places() {
        let mut f = vec![7, 7];
        let ci = ColumnIndex { null_pages: vec![], min_values: vec![], max_values: vec![], boundary_order: parquet_format_safe::BoundaryOrder(0), null_counts: None };
        let n = put(&mut f, &ci);
        let at = f.len();
        let oi = OffsetIndex { page_locations: vec![PageLocation { offset: sx::i64() >> sx::param(2), compressed_page_size: sx::i32() >> (sx::param(2) / 2), first_row_index: sx::i64() >> sx::param(2) }] };
        let m = oi.write_to_out_protocol(&mut TCompactOutputProtocol::new(&mut f)).unwrap();
        let place = |o: usize, l: usize| match sx::param(0) {
            0 => (Some(o as i64), Some(l as i32)),
            1 => (Some(o as i64), Some(sx::i32())),
            2 => (Some({ let x = sx::i64(); sx::assume((x < 0) | (x >= 1 << 40)); x }), Some(l as i32)),
            3 => (Some(o as i64), None),
            4 => (None, Some(sx::i32())),
            // runs over the end of the file
            _ => (Some(o as i64), Some(40)),
        };
        let c = chunk(1, place(2, n), place(at, m));
        let good = chunk(1, (Some(2), Some(n as i32)), (Some(at as i64), Some(m as i32)));
        sx::alloc_limit(1 << 20, true);
        let chunks = if sx::param(1) == 1 { vec![good, c] } else { vec![c] };
        let r = read_columns_indexes(&mut Cursor::new(&f), &chunks);
        let l = read_pages_locations(&mut Cursor::new(&f), &chunks);
        match sx::param(0) {
            0 => {
                sx::check(matches!(&r, Ok(r) if r.len() == chunks.len()), "index at its place");
                match l {
                    Ok(l) => for l in l {
                        let (a, b) = (&l[0], &oi.page_locations[0]);
                        sx::check((a.offset == b.offset) & (a.compressed_page_size == b.compressed_page_size) & (a.first_row_index == b.first_row_index), "location");
                        sx::reach("found");
                    }
                    Err(_) => sx::check(false, "offset index is refused"),
                }
            }
            1 => {
                sx::check(match &r { Ok(r) => r.len() == chunks.len(), Err(_) => true }, "one index per column");
                sx::check(match &l { Ok(l) => l.len() == chunks.len(), Err(_) => true }, "one list of locations per column");
                sx::reach("any length")
            }
            4 if sx::param(1) == 0 => {
                sx::check(matches!(&r, Ok(r) if r.is_empty()), "no index");
                sx::check(matches!(&l, Ok(l) if l.is_empty()), "no offset index");
            }
            _ => {
                sx::check(r.is_err(), "index that does not exist");
                sx::check(l.is_err(), "offset index that does not exist");
                sx::reach("refused place");
            }
        }
    }
}
#[allow(non_snake_case)]
fn DataPageHeaderV1x(n: i32) -> parquet2::page::DataPageHeaderV1 {
    match v1(n, Encoding::Plain, Encoding::Rle, Encoding::Rle) { DataPageHeader::V1(h) => h, _ => unreachable!() }
}
