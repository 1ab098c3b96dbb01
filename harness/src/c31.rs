use crate::{harnesses, sx};
use parquet2::schema::types::*;
use parquet2::schema::Repetition;

/// the most decimal digits that any value of 2^(8n-1)-1 holds: floor((8n-1) * log10(2))
fn digits(n: usize) -> usize {
    if n == 0 {
        return 0;
    }
    // log10(2) to 18 places
    ((8 * n as u128 - 1) * 301_029_995_663_981_195 / 1_000_000_000_000_000_000) as usize
}
const LENGTHS: [usize; 26] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 64, 100, 127, 128, 129, 1000];

fn physical(k: usize) -> PhysicalType {
    use PhysicalType::*;
    match k {
        0 => Boolean,
        1 => Int32,
        2 => Int64,
        3 => Int96,
        4 => Float,
        5 => Double,
        6 => ByteArray,
        k => FixedLenByteArray(LENGTHS[k - 7]),
    }
}
#[inline(always)]
fn decimal(p: PhysicalType, precision: usize, scale: usize) -> bool {
    use PhysicalType::*;
    let max = match p {
        Int32 => 9,
        Int64 => 18,
        ByteArray => usize::MAX,
        FixedLenByteArray(n) => digits(n),
        _ => return false,
    };
    (precision > 0) & (precision <= max) & (scale <= precision)
}
#[inline(always)]
fn accept(p: PhysicalType, c: Option<PrimitiveConvertedType>, l: Option<PrimitiveLogicalType>, want: bool) {
    let r = ParquetType::try_from_primitive("a".to_string(), p, Repetition::Optional, c, l, Some(7));
    match r {
        Ok(t) => {
            sx::check(want, "an annotation the format does not allow is refused");
            match t {
                ParquetType::PrimitiveType(t) => {
                    sx::check(t.physical_type == p, "the type is the one given");
                    sx::check(t.converted_type == c, "the legacy annotation is the one given");
                    sx::check(t.logical_type == l, "the annotation is the one given");
                    sx::check(t.field_info.repetition == Repetition::Optional, "repetition");
                    sx::check(t.field_info.id == Some(7), "id");
                }
                _ => sx::check(false, "a column type"),
            }
            sx::reach("accepted");
        }
        Err(_) => {
            sx::check(!want, "an annotation the format allows is accepted");
            sx::reach("refused");
        }
    }
}
#[inline(always)]
fn converted(k: usize, t: PhysicalType) -> (Option<PrimitiveConvertedType>, bool) {
    use PhysicalType as P;
    use PrimitiveConvertedType::*;
    let (bytes, i32_, i64_) = (t == P::ByteArray, t == P::Int32, t == P::Int64);
    let (c, ok) = match k {
        0 => return (None, true),
        1 => (Utf8, bytes),
        2 => (Enum, bytes),
        3 => (Json, bytes),
        4 => (Bson, bytes),
        5 => (Date, i32_),
        6 => (TimeMillis, i32_),
        7 => (TimeMicros, i64_),
        8 => (TimestampMillis, i64_),
        9 => (TimestampMicros, i64_),
        10 => (Uint8, i32_),
        11 => (Uint16, i32_),
        12 => (Uint32, i32_),
        13 => (Uint64, i64_),
        14 => (Int8, i32_),
        15 => (Int16, i32_),
        16 => (Int32, i32_),
        17 => (Int64, i64_),
        18 => (Interval, t == P::FixedLenByteArray(12)),
        _ => {
            let (p, s) = (sx::usize(), sx::usize());
            (Decimal(p, s), decimal(t, p, s))
        }
    };
    (Some(c), ok)
}
#[inline(always)]
fn logical(k: usize, t: PhysicalType) -> (Option<PrimitiveLogicalType>, bool) {
    use PhysicalType as P;
    use PrimitiveLogicalType as L;
    use TimeUnit::*;
    let utc = sx::bool();
    let (bytes, i32_, i64_) = (t == P::ByteArray, t == P::Int32, t == P::Int64);
    let (l, ok) = match k {
        0 => return (None, true),
        1 => (L::String, bytes),
        2 => (L::Enum, bytes),
        3 => (L::Json, bytes),
        4 => (L::Bson, bytes),
        5 => (L::Date, i32_),
        6 => (L::Time { unit: Milliseconds, is_adjusted_to_utc: utc }, i32_),
        7 => (L::Time { unit: Microseconds, is_adjusted_to_utc: utc }, i64_),
        8 => (L::Time { unit: Nanoseconds, is_adjusted_to_utc: utc }, i64_),
        9 => (L::Timestamp { unit: Milliseconds, is_adjusted_to_utc: utc }, i64_),
        10 => (L::Timestamp { unit: Microseconds, is_adjusted_to_utc: utc }, i64_),
        11 => (L::Timestamp { unit: Nanoseconds, is_adjusted_to_utc: utc }, i64_),
        12 => (L::Integer(IntegerType::Int8), i32_),
        13 => (L::Integer(IntegerType::Int16), i32_),
        14 => (L::Integer(IntegerType::Int32), i32_),
        15 => (L::Integer(IntegerType::Int64), i64_),
        16 => (L::Integer(IntegerType::UInt8), i32_),
        17 => (L::Integer(IntegerType::UInt16), i32_),
        18 => (L::Integer(IntegerType::UInt32), i32_),
        19 => (L::Integer(IntegerType::UInt64), i64_),
        20 => (L::Uuid, t == P::FixedLenByteArray(16)),
        _ => {
            let (p, s) = (sx::usize(), sx::usize());
            (L::Decimal(p, s), decimal(t, p, s))
        }
    };
    (Some(l), ok)
}

harnesses! {
    fn h_converted() {
        let p = physical(sx::choose(7 + LENGTHS.len()));
        let (c, ok) = converted(sx::choose(20), p);
        accept(p, c, None, ok);
    }
    fn h_logical() {
        let p = physical(sx::choose(7 + LENGTHS.len()));
        let (l, ok) = logical(sx::choose(22), p);
        accept(p, None, l, ok);
    }
    // both annotations: each has to be allowed
    fn h_both() {
        let p = physical([1, 2, 4, 6, 7 + 4, 7 + 12, 7 + 15][sx::choose(7)]);
        let (c, a) = converted(sx::choose(20), p);
        let (l, b) = logical(sx::choose(22), p);
        accept(p, c, l, a & b);
    }
    // every fixed length for annotations that name one
    fn h_lengths() {
        let n = sx::usize();
        let p = PhysicalType::FixedLenByteArray(n);
        if sx::flag() {
            accept(p, Some(PrimitiveConvertedType::Interval), None, n == 12);
        } else {
            accept(p, None, Some(PrimitiveLogicalType::Uuid), n == 16);
        }
    }
}
