use crate::files::*;
use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::Encoding;
use parquet2::page::*;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition;
use parquet2::statistics::*;

fn count() -> Option<i64> { if sx::flag() { Some(sx::i64()) } else { None } }
fn opt<T>(f: impl Fn() -> T) -> Option<T> { if sx::flag() { Some(f()) } else { None } }

/// through the stored form, directly and through each kind of page header
fn through(s: &dyn Statistics, t: PhysicalType) -> Vec<std::sync::Arc<dyn Statistics>> {
    let stored = serialize_statistics(s);
    sx::check(stored.min.is_none() && stored.max.is_none(), "deprecated bounds are not written");
    let p = primitive(t, Repetition::Optional);
    let mut r = vec![];
    match deserialize_statistics(&stored, p.clone()) {
        Ok(x) => r.push(x),
        Err(_) => sx::check(false, "written statistics are refused"),
    }
    let d = descriptor(t, Repetition::Optional, 1, 0);
    for v2 in [false, true] {
        let h = if v2 {
            match header_v2(1, 1, Encoding::Plain, 0, 0) { DataPageHeader::V2(mut h) => { h.statistics = Some(stored.clone()); DataPageHeader::V2(h) } h => h }
        } else {
            match v1(1, Encoding::Plain, Encoding::Rle, Encoding::Rle) { DataPageHeader::V1(mut h) => { h.statistics = Some(stored.clone()); DataPageHeader::V1(h) } h => h }
        };
        match DataPage::new(h.clone(), vec![], d.clone(), None).statistics() {
            Some(Ok(x)) => r.push(x),
            _ => sx::check(false, "statistics of a page"),
        }
        match CompressedDataPage::new(h, vec![], parquet2::compression::Compression::Uncompressed, 0, d.clone(), None).statistics() {
            Some(Ok(x)) => r.push(x),
            _ => sx::check(false, "statistics of a compressed page"),
        }
    }
    sx::reach("round trip");
    r
}
macro_rules! same {
    ($a:expr, $b:expr, $eq:expr) => {{
        sx::check(same_i($a.null_count, $b.null_count), "number of nulls");
        sx::check(same_i($a.distinct_count, $b.distinct_count), "number of distinct values");
        sx::check($eq(&$a.min_value, &$b.min_value), "minimum");
        sx::check($eq(&$a.max_value, &$b.max_value), "maximum");
    }};
}
fn native<T: parquet2::types::NativeType + PartialEq>(f: impl Fn() -> T, bits: impl Fn(T) -> u128) {
    let a = PrimitiveStatistics::<T> { primitive_type: primitive(T::TYPE, Repetition::Optional), null_count: count(), distinct_count: count(), min_value: opt(&f), max_value: opt(&f) };
    sx::check(*a.physical_type() == T::TYPE && same_i(Statistics::null_count(&a), a.null_count), "accessors");
    for x in through(&a, T::TYPE) {
        match x.as_any().downcast_ref::<PrimitiveStatistics<T>>() {
            Some(b) => {
                same!(a, b, |x: &Option<T>, y: &Option<T>| match (x, y) { (Some(x), Some(y)) => bits(*x) == bits(*y), (None, None) => true, _ => false });
                sx::check(b.primitive_type == a.primitive_type, "type");
            }
            None => sx::check(false, "statistics of another type"),
        }
    }
}
fn stored(n: usize, m: usize) -> ParquetStatistics {
    ParquetStatistics {
        max: opt(|| vec![sx::u8()]), min: None, null_count: Some(sx::i64()), distinct_count: None,
        max_value: if n == 99 { None } else { Some(sx::bytes(n)) },
        min_value: if m == 99 { None } else { Some(sx::bytes(m)) },
    }
}
fn u96(x: [u32; 3]) -> u128 { x[0] as u128 | (x[1] as u128) << 32 | (x[2] as u128) << 64 }
harnesses! {
    fn h_i32() { native(sx::i32, |x| x as u32 as u128) }
    fn h_i64() { native(sx::i64, |x| x as u64 as u128) }
    fn h_int96() { native(|| [sx::u32(), sx::u32(), sx::u32()], u96) }
    fn h_f32() { native(sx::f32, |x| x.to_bits() as u128) }
    fn h_f64() { native(sx::f64, |x| x.to_bits() as u128) }
    fn h_boolean() {
        let a = BooleanStatistics { null_count: count(), distinct_count: count(), min_value: opt(sx::bool), max_value: opt(sx::bool) };
        for x in through(&a, PhysicalType::Boolean) {
            match x.as_any().downcast_ref::<BooleanStatistics>() {
                Some(b) => same!(a, b, |x: &Option<bool>, y: &Option<bool>| match (x, y) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false }),
                None => sx::check(false, "statistics of another type"),
            }
        }
    }
    // P: lengths
    fn h_binary() {
        let t = PhysicalType::ByteArray;
        let a = BinaryStatistics { primitive_type: primitive(t, Repetition::Optional), null_count: count(), distinct_count: count(), min_value: opt(|| sx::bytes(sx::param(0))), max_value: opt(|| sx::bytes(sx::param(1))) };
        for x in through(&a, t) {
            match x.as_any().downcast_ref::<BinaryStatistics>() {
                Some(b) => { same!(a, b, same_opt); sx::check(b.primitive_type == a.primitive_type, "type"); }
                None => sx::check(false, "statistics of another type"),
            }
        }
    }
    fn h_fixed() {
        let n = sx::param(0);
        let t = PhysicalType::FixedLenByteArray(n);
        let a = FixedLenStatistics { primitive_type: primitive(t, Repetition::Optional), null_count: count(), distinct_count: count(), min_value: opt(|| sx::bytes(n)), max_value: opt(|| sx::bytes(n)) };
        for x in through(&a, t) {
            match x.as_any().downcast_ref::<FixedLenStatistics>() {
                Some(b) => { same!(a, b, same_opt); sx::check(b.primitive_type == a.primitive_type, "type"); }
                None => sx::check(false, "statistics of another type"),
            }
        }
    }
    // P: type, length of the maximum, length of the minimum (99: absent)
    fn h_stored() {
        let (k, n, m) = (sx::param(0), sx::param(1), sx::param(2));
        let t = [PhysicalType::Boolean, PhysicalType::Int32, PhysicalType::Int64, PhysicalType::Int96, PhysicalType::Float, PhysicalType::Double, PhysicalType::ByteArray, PhysicalType::FixedLenByteArray(3)][k];
        let size = [1, 4, 8, 12, 4, 8, usize::MAX, 3][k];
        let s = stored(n, m);
        let ok = (n == 99 || size == usize::MAX || n == size) && (m == 99 || size == usize::MAX || m == size);
        let r = deserialize_statistics(&s, primitive(t, Repetition::Required));
        sx::check(r.is_ok() == ok, "accepted exactly when the lengths are those of the type");
        if let Ok(x) = r {
            sx::check(*x.physical_type() == t, "type");
            sx::check(same_i(x.null_count(), s.null_count), "number of nulls");
            let back = serialize_statistics(x.as_ref());
            if k == 0 {
                // any byte but zero is true
                let b = |x: &Option<Vec<u8>>| x.as_ref().map(|x| vec![(x[0] != 0) as u8]);
                sx::check(same_opt(&back.max_value, &b(&s.max_value)) && same_opt(&back.min_value, &b(&s.min_value)), "bounds");
            } else {
                sx::check(same_opt(&back.max_value, &s.max_value), "maximum");
                sx::check(same_opt(&back.min_value, &s.min_value), "minimum");
            }
            sx::reach("accepted");
        } else {
            sx::reach("refused");
        }
    }
    // equality of statistics is equality of all their parts
    fn h_eq() {
        let mk = || {
            let (n, d, a, b) = (sx::i64(), sx::i64(), sx::i32(), sx::i32());
            ((n, d, a, b), PrimitiveStatistics::<i32> { primitive_type: primitive(PhysicalType::Int32, Repetition::Optional), null_count: Some(n), distinct_count: Some(d), min_value: Some(a), max_value: Some(b) })
        };
        let ((n, d, a, b), x) = mk();
        let ((m, e, f, g), y) = mk();
        let (p, q): (&dyn Statistics, &dyn Statistics) = (&x, &y);
        sx::check((p == q) == ((n == m) & (d == e) & (a == f) & (b == g)), "equality");
        let z = BooleanStatistics { null_count: Some(n), distinct_count: None, min_value: None, max_value: None };
        sx::check(p != (&z as &dyn Statistics), "statistics of different types");
        sx::reach("compared");
    }
}
