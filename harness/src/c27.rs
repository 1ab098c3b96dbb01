use crate::aio::*;
use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::error::Error;
use parquet2::metadata::{KeyValue, SchemaDescriptor};
use parquet2::page::DataPageHeader;
use parquet2::write::*;

fn with_stats(mut v: Vec<Spec>) -> Vec<Spec> {
    for (i, s) in v.iter_mut().enumerate() {
        if let Spec::Data { header, .. } = s {
            let st = Some(TStats { max: None, min: None, null_count: Some(i as i64), distinct_count: None, max_value: Some(vec![3; 4]), min_value: Some(vec![2; 4]) });
            match header { DataPageHeader::V1(h) => h.statistics = st, DataPageHeader::V2(h) => h.statistics = st }
        }
    }
    v
}
fn groups(s: &SchemaDescriptor, n: usize, pages: usize, stats: bool) -> Vec<Group> {
    (0..n).map(|g| (0..s.columns().len()).map(|c| { let v = column(pages, (g + c) % 2 == 1, g + 2 * c, 0); if stats { with_stats(v) } else { v } }).collect()).collect()
}
fn kv(k: usize) -> Option<Vec<KeyValue>> {
    match k { 0 => None, 1 => Some(vec![]), _ => Some(vec![KeyValue { key: "k".to_string(), value: None }, KeyValue { key: "".to_string(), value: Some("v".to_string()) }]) }
}
/// the file, or how far it got and where it failed
fn stream(io: &mut Io, s: &SchemaDescriptor, o: WriteOptions, by: Option<String>, g: Vec<RowGroupIter<'static, Error>>, k: Option<Vec<KeyValue>>) -> (usize, Result<u64, Error>) {
    let mut w = FileStreamer::new(io, s.clone(), o, by);
    let mut i = 0;
    for x in g { if let Err(e) = block_on(w.write(x)) { return (i, Err(e)); } i += 1; }
    (i, block_on(w.end(k)))
}
fn direct(io: &mut Io, s: &SchemaDescriptor, o: WriteOptions, by: Option<String>, g: Vec<RowGroupIter<'static, Error>>, k: Option<Vec<KeyValue>>) -> (usize, Result<u64, Error>) {
    let mut w = FileWriter::new(io, s.clone(), o, by);
    let mut i = 0;
    for x in g { if let Err(e) = w.write(x) { return (i, Err(e)); } i += 1; }
    (i, w.end(k))
}
fn by(k: usize) -> Option<String> { if k == 1 { Some("me".to_string()) } else { None } }

harnesses! {
    // [schema, groups, pages, stats, split, flip, pend, codec, bytes that compression saves]: the same bytes and the same length
    fn h_same() {
        compressed(sx::param(7), sx::param(8));
        let k = sx::param(1) + sx::param(2);
        let s = schema(sx::param(0));
        let stats = sx::param(3) == 1;
        let g = groups(&s, sx::param(1), sx::param(2), stats && sx::param(0) == 1);
        let mut a = Io::new(vec![]);
        let mut b = Io::split(vec![], sx::param(4), sx::param(6));
        let make = || g.iter().map(|g| row_group(&s, g)).collect::<Vec<_>>();
        let (i, x) = direct(&mut a, &s, options(stats, k % 2 == 0), by(k % 2), make(), kv(k % 3));
        let (j, y) = stream(&mut b, &s, options(stats, k % 2 == 0), by(k % 2), make(), kv(k % 3));
        sx::check(i == j, "row groups written");
        sx::check(eq_bytes(&a.data, &b.data), "bytes written");
        match (x, y) {
            (Ok(x), Ok(y)) => { sx::check((x == y) & (x as usize == a.data.len()), "length"); sx::reach("written"); }
            (Err(_), Err(_)) => sx::reach("refused"),
            _ => sx::check(false, "only one of the writers fails"),
        }
        sx::observe_bytes(&b.data);
    }
    // [what is wrong, column, split]: the same inputs are refused, after the same bytes
    fn h_bad() {
        let s = schema(2);
        let at = sx::param(1);
        let good = groups(&s, 1, 2, false);
        let make = || {
            let mut g = good.clone();
            let mut v = vec![row_group(&s, &g[0])];
            match sx::param(0) {
                0 => { g[0].pop(); }
                1 => { g[0].push(good[0][0].clone()); }
                2 => for p in &mut g[0][at] { if let Spec::Data { rows, .. } = p { *rows = None; } }
                3 => g[0][at].clear(),
                4 => { let p = g[0][at].pop().unwrap(); g[0][at].push(Spec::Dict { buf: vec![1], n: 1 << 40, sorted: false }); g[0][at].push(p); }
                5 => { g[0][at].insert(1, Spec::Dict { buf: vec![1], n: 1, sorted: false }); }
                6 => { if let Some(Spec::Data { header: DataPageHeader::V1(h), .. }) = g[0][at].iter_mut().find(|x| matches!(x, Spec::Data { header: DataPageHeader::V1(_), .. })) { h.statistics = Some(TStats { max: None, min: None, null_count: Some(-1), distinct_count: None, max_value: Some(vec![1; 3]), min_value: None }); } }
                _ => {}
            }
            let n = g[0].len();
            v.push(if sx::param(0) < 7 && n > 0 && n <= 2 { row_group(&s, &g[0]) } else {
                let cols: Vec<_> = (0..n).map(|i| {
                    let d = &s.columns()[i.min(1)].descriptor;
                    let mut p = Pages::new(g[0][i].iter().map(|p| crate::files::make(p, d)).collect());
                    if sx::param(0) == 7 && i == at { p.fail = 1; }
                    if sx::param(0) == 8 && i == at { Err(Error::OutOfSpec(String::new())) } else { Ok(DynStreamingIterator::new(p)) }
                }).collect();
                DynIter::new(cols.into_iter())
            });
            v
        };
        let mut a = Io::new(vec![]);
        let mut b = Io::split(vec![], sx::param(2), sx::param(2) % 2);
        let stats = sx::param(3) == 1;
        let (i, x) = direct(&mut a, &s, options(stats, true), None, make(), None);
        let (j, y) = stream(&mut b, &s, options(stats, true), None, make(), None);
        sx::check((i == j) & (x.is_ok() == y.is_ok()), "both writers accept the same");
        sx::check(eq_bytes(&a.data, &b.data), "bytes before the failure");
        if let (Err(x), Err(y)) = (&x, &y) { sx::check(std::mem::discriminant(x) == std::mem::discriminant(y), "kind of error"); }
        if x.is_ok() { sx::reach("accepted"); } else { sx::reach("refused"); }
    }
}
