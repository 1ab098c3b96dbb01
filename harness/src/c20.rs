use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::Encoding;
use parquet2::page::DataPageHeader;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use std::cmp::Ordering;
use std::io::Cursor;

#[derive(Clone, Copy, PartialEq)]
enum Kind { Bool, I32, U32, I64, U64, F32, F64, Int96, Bytes, Decimal, Fixed, FixedDecimal }
use Kind::*;
const KINDS: [Kind; 12] = [Bool, I32, U32, I64, U64, F32, F64, Int96, Bytes, Decimal, Fixed, FixedDecimal];

fn column_type(k: Kind, logical: bool, len: usize) -> ParquetType {
    use PhysicalType::*;
    let t = match k {
        Bool => Boolean,
        I32 | U32 => Int32,
        I64 | U64 => Int64,
        F32 => Float,
        F64 => Double,
        Kind::Int96 => PhysicalType::Int96,
        Bytes | Decimal => ByteArray,
        Fixed | FixedDecimal => FixedLenByteArray(len),
    };
    let (c, l) = match k {
        U32 => (Some(PrimitiveConvertedType::Uint32), Some(PrimitiveLogicalType::Integer(IntegerType::UInt32))),
        U64 => (Some(PrimitiveConvertedType::Uint64), Some(PrimitiveLogicalType::Integer(IntegerType::UInt64))),
        Decimal | FixedDecimal => (Some(PrimitiveConvertedType::Decimal(2, 1)), Some(PrimitiveLogicalType::Decimal(2, 1))),
        _ => (None, None),
    };
    let (c, l) = if logical { (None, l) } else { (c, None) };
    ParquetType::try_from_primitive("a".to_string(), t, Repetition::Optional, c, l, None).unwrap()
}
fn width(k: Kind, len: usize) -> usize {
    match k { Bool => 1, I32 | U32 | F32 => 4, I64 | U64 | F64 => 8, Kind::Int96 => 12, _ => len }
}
fn le(x: &[u8]) -> u128 {
    let mut v = 0u128;
    for i in 0..x.len() { v |= (x[i] as u128) << (8 * i); }
    v
}
fn be(x: &[u8]) -> u128 {
    let mut v = 0u128;
    for i in 0..x.len() { v = (v << 8) | x[i] as u128; }
    v
}
fn nan(k: Kind, x: &[u8]) -> bool {
    match k {
        F32 => f32::from_bits(le(x) as u32).is_nan(),
        F64 => f64::from_bits(le(x) as u64).is_nan(),
        _ => false,
    }
}
/// whether the stored value x is not above y in the order of the type
fn not_above(k: Kind, x: &[u8], y: &[u8]) -> bool {
    let (a, b) = (le(x), le(y));
    match k {
        Bool | U32 | U64 => a <= b,
        I32 => a as u32 as i32 <= b as u32 as i32,
        I64 => a as u64 as i64 <= b as u64 as i64,
        F32 => f32::from_bits(a as u32) <= f32::from_bits(b as u32),
        F64 => f64::from_bits(a as u64) <= f64::from_bits(b as u64),
        // the moment: days and nanoseconds of the day
        Kind::Int96 => {
            let w = |x: &[u8], i: usize| u32::from_le_bytes(x[i..i + 4].try_into().unwrap());
            let t = |x: &[u8]| w(x, 8) as i128 * 86_400_000_000_000 + (((w(x, 4) as u64) << 32) | w(x, 0) as u64) as i128;
            t(x) <= t(y)
        }
        Bytes | Fixed => {
            let n = x.len().min(y.len());
            let (p, q) = (be(&x[..n]), be(&y[..n]));
            (p < q) | ((p == q) & (x.len() <= y.len()))
        }
        Decimal | FixedDecimal => {
            let s = |x: &[u8]| if x.is_empty() { 0i128 } else { ((be(x) << (128 - 8 * x.len())) as i128) >> (128 - 8 * x.len()) };
            s(x) <= s(y)
        }
    }
}
struct Bounds { stats: bool, nulls: Option<i64>, n: i64, min: Option<Vec<u8>>, max: Option<Vec<u8>> }

/// mode 0: everything present; 1: each bound and count may be missing; 2: also the statistics
fn bounds(k: Kind, mode: usize, len: usize) -> Bounds {
    let n = some() as i64;
    let some_bytes = || {
        let w = match k { Bytes | Decimal => sx::choose(len + 1), _ => width(k, len) };
        let mut b = sx::bytes(w);
        if k == Bool { sx::assume(b[0] < 2); }
        // products of two free numbers are beyond the solver; all moments are compared in C35
        if k == Kind::Int96 { b[8] &= 1; for i in 9..12 { b[i] = 0; } }
        b
    };
    if mode == 2 && sx::flag() { return Bounds { stats: false, nulls: None, n, min: None, max: None }; }
    let opt = || if mode == 0 || sx::flag() { Some(some_bytes()) } else { None };
    // all null, or any other number
    let nulls = if mode == 0 { Some(few() as i64) } else {
        match sx::choose(3) { 0 => None, 1 => Some(n), _ => Some(few() as i64) }
    };
    let (min, max) = (opt(), opt());
    Bounds { stats: true, nulls, n, min, max }
}
fn check_bound(k: Kind, pages: &[Bounds], got: &Option<Vec<u8>>, max: bool) {
    let of = |b: &Bounds| if max { b.max.clone() } else { b.min.clone() };
    let unknown = |b: &Bounds| of(b).is_none() & !(b.stats & (b.nulls == Some(b.n)));
    match got {
        Some(x) => {
            for b in pages { if of(b).is_none() { sx::check(!unknown(b), "a bound although a page with values has none"); } }
            // it is the bound of a page that excludes no other; one that is not a number is none
            let mut good = false;
            let mut member = false;
            for b in pages {
                if let Some(y) = of(b) {
                    let mut best = true;
                    for c in pages {
                        if let Some(z) = of(c) { best &= if max { not_above(k, &z, &y) } else { not_above(k, &y, &z) }; }
                    }
                    let is = x.len() == y.len() && eq_bytes(x, &y);
                    member |= is;
                    good |= is & (best | nan(k, &y));
                }
            }
            sx::check(member, "the bound is not one of a page");
            sx::check(good, "the bound excludes a page");
            sx::reach("bound");
        }
        None => {
            let mut missing = true;
            for b in pages { missing &= of(b).is_none(); }
            let mut any = false;
            for b in pages { any |= unknown(b); }
            sx::check(missing | any, "the bound is lost");
            sx::reach("no bound");
        }
    }
}
fn page(b: &Bounds, v2: bool) -> Spec {
    let st = if b.stats { Some(TStats { max: None, min: None, null_count: b.nulls, distinct_count: None, max_value: b.max.clone(), min_value: b.min.clone() }) } else { None };
    let header = if v2 {
        match header_v2(b.n as i32, 1, Encoding::Plain, 0, 0) { DataPageHeader::V2(mut h) => { h.statistics = st; DataPageHeader::V2(h) } h => h }
    } else {
        match v1(b.n as i32, Encoding::Plain, Encoding::Rle, Encoding::Rle) { DataPageHeader::V1(mut h) => { h.statistics = st; DataPageHeader::V1(h) } h => h }
    };
    Spec::Data { header, buf: vec![], rows: Some(1) }
}
harnesses! {
    // P: kind, pages, mode, length, logical
    fn h_chunk() {
        let (k, n, mode, len, logical) = (KINDS[sx::param(0)], sx::param(1), sx::param(2), sx::param(3), sx::param(4));
        let b: Vec<Bounds> = (0..n).map(|_| bounds(k, mode, len)).collect();
        let s = parquet2::metadata::SchemaDescriptor::new("s".to_string(), vec![column_type(k, logical & 1 == 1, len)]);
        let mut pages = vec![];
        if logical & 2 == 2 { pages.push(Spec::Dict { buf: vec![1], n: 1, sorted: false }); }
        for (i, b) in b.iter().enumerate() { pages.push(page(b, i % 2 == 1)); }
        let (_, _, m) = match write(Cursor::new(vec![]), &s, options(false, false), None, &[vec![pages]], None) {
            Ok(x) => x,
            Err(_) => return sx::check(false, "refused by the writer"),
        };
        let st = &m.row_groups[0].columns[0].meta_data.as_ref().unwrap().statistics;
        let st = match st {
            Some(x) => x.clone(),
            None => {
                // nothing recorded: allowed only when some page has none
                sx::check(b.is_empty() || b.iter().any(|b| !b.stats), "no statistics");
                sx::reach("no bound");
                return;
            }
        };
        sx::check(b.iter().all(|b| b.stats), "statistics although a page has none");
        let mut sum = Some(0i64);
        for b in &b { sum = match (sum, b.nulls) { (Some(x), Some(y)) => Some(x + y), _ => None }; }
        sx::check(same_i(st.null_count, sum), "number of nulls");
        sx::check(st.distinct_count.is_none() || n == 1, "number of distinct values");
        sx::check(st.min.is_none() && st.max.is_none(), "deprecated bounds");
        check_bound(k, &b, &st.min_value, false);
        check_bound(k, &b, &st.max_value, true);
    }
    // any numbers of nulls
    fn h_nulls() {
        let s = parquet2::metadata::SchemaDescriptor::new("s".to_string(), vec![leaf("a", PhysicalType::Int32, Repetition::Optional)]);
        let b: Vec<Bounds> = (0..sx::param(0)).map(|_| Bounds { stats: true, nulls: Some({ let v = sx::i64() & i64::MAX | 1 << 62; if sx::flag() { -v } else { v } }), n: 3, min: Some(vec![1, 0, 0, 0]), max: Some(vec![2, 0, 0, 0]) }).collect();
        let pages = b.iter().map(|b| page(b, true)).collect();
        if let Ok((_, _, m)) = write(Cursor::new(vec![]), &s, options(false, false), None, &[vec![pages]], None) {
            let got = m.row_groups[0].columns[0].meta_data.as_ref().unwrap().statistics.as_ref().unwrap().null_count;
            let mut sum = 0i128;
            for b in &b { sum += b.nulls.unwrap() as i128; }
            if let Some(x) = got { sx::check(x as i128 == sum, "number of nulls"); sx::reach("sum"); }
        }
    }
}
#[allow(dead_code)]
fn _o(_: Ordering) {}
