use crate::{harnesses, sx};
use parquet2::compression::*;
use parquet2::encoding::Encoding;
use parquet2::indexes::BoundaryOrder;
use parquet2::page::PageType;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as fmt;

/// `table` is the format's (code, member) list; every i32 is tried
macro_rules! bijection {
    ($fmt:ident, $ours:ty, $table:expr, $n:literal) => {{
        let table: [(i32, $ours); $n] = $table;
        let code = sx::i32();
        let r: Result<$ours, _> = fmt::$fmt(code).try_into();
        let mut known = false;
        for (c, m) in table {
            if code == c {
                known = true;
                match &r {
                    Ok(x) => sx::check(*x == m, "a code is read as the member of the format"),
                    Err(_) => sx::check(false, "a code of the format is read"),
                }
                let back: fmt::$fmt = m.into();
                sx::check(back.0 == c, "a member is written as its code");
                sx::reach(concat!(stringify!($fmt), " known"));
            }
        }
        if !known {
            sx::check(r.is_err(), "a code outside the format is refused");
            sx::reach(concat!(stringify!($fmt), " refused"));
        }
    }};
}

macro_rules! level {
    ($level:ident, $v:expr, $lo:expr, $hi:expr) => {{
        let v = $v;
        let r = $level::try_new(v);
        let valid = (v >= $lo) & (v <= $hi);
        match r {
            Ok(l) => {
                sx::check(valid, "a level outside the range is refused");
                sx::check(l.compression_level() == v, "the level kept is the level given");
                sx::reach(concat!(stringify!($level), " accepted"));
            }
            Err(_) => {
                sx::check(!valid, "a level within the range is accepted");
                sx::reach(concat!(stringify!($level), " refused"));
            }
        }
    }};
}

fn units() -> [(fmt::TimeUnit, TimeUnit); 3] {
    [
        (fmt::TimeUnit::MILLIS(Default::default()), TimeUnit::Milliseconds),
        (fmt::TimeUnit::MICROS(Default::default()), TimeUnit::Microseconds),
        (fmt::TimeUnit::NANOS(Default::default()), TimeUnit::Nanoseconds),
    ]
}

harnesses! {
    fn h_repetition() {
        bijection!(FieldRepetitionType, Repetition, [(0, Repetition::Required), (1, Repetition::Optional), (2, Repetition::Repeated)], 3)
    }
    fn h_codec() {
        bijection!(CompressionCodec, Compression, [
            (0, Compression::Uncompressed), (1, Compression::Snappy), (2, Compression::Gzip), (3, Compression::Lzo),
            (4, Compression::Brotli), (5, Compression::Lz4), (6, Compression::Zstd), (7, Compression::Lz4Raw)], 8)
    }
    fn h_page_type() {
        // 1 is the format's INDEX_PAGE, which the crate does not support
        bijection!(PageType, PageType, [(0, PageType::DataPage), (2, PageType::DictionaryPage), (3, PageType::DataPageV2)], 3)
    }
    fn h_encoding() {
        bijection!(Encoding, Encoding, [
            (0, Encoding::Plain), (2, Encoding::PlainDictionary), (3, Encoding::Rle), (4, Encoding::BitPacked),
            (5, Encoding::DeltaBinaryPacked), (6, Encoding::DeltaLengthByteArray), (7, Encoding::DeltaByteArray),
            (8, Encoding::RleDictionary), (9, Encoding::ByteStreamSplit)], 9)
    }
    fn h_boundary_order() {
        bijection!(BoundaryOrder, BoundaryOrder, [(0, BoundaryOrder::Unordered), (1, BoundaryOrder::Ascending), (2, BoundaryOrder::Descending)], 3)
    }
    fn h_group_converted() {
        bijection!(ConvertedType, GroupConvertedType, [(1, GroupConvertedType::Map), (2, GroupConvertedType::MapKeyValue), (3, GroupConvertedType::List)], 3)
    }
    fn h_physical() {
        let code = sx::i32();
        let (some, len) = (sx::flag(), sx::i32());
        let length = if some { Some(len) } else { None };
        let r: Result<PhysicalType, _> = (fmt::Type(code), length).try_into();
        use PhysicalType::*;
        let table = [Boolean, Int32, Int64, Int96, Float, Double, ByteArray];
        let mut known = false;
        for (c, m) in table.into_iter().enumerate() {
            if code == c as i32 {
                known = true;
                match &r {
                    Ok(x) => sx::check(*x == m, "type of the code"),
                    Err(_) => sx::check(false, "a type of the format is read"),
                }
                let back: (fmt::Type, Option<i32>) = m.into();
                sx::check(back.0.0 == c as i32, "code of the type");
                sx::reach("fixed-size type");
            }
        }
        if code == 7 {
            known = true;
            match &r {
                Ok(FixedLenByteArray(n)) => {
                    sx::check(some, "a length is needed");
                    sx::check(len >= 0 && *n == len as usize, "length of the type");
                    let back: (fmt::Type, Option<i32>) = FixedLenByteArray(*n).into();
                    sx::check(back.0.0 == 7, "code of the type");
                    sx::check(back.1 == Some(len), "length is written back");
                    sx::reach("fixed-length");
                }
                Ok(_) => sx::check(false, "type of the code"),
                Err(_) => {
                    sx::check(!some | (len < 0), "a length is accepted");
                    sx::reach("bad length");
                }
            }
        }
        if !known {
            sx::check(r.is_err(), "a code outside the format is refused");
            sx::reach("refused");
        }
    }
    fn h_converted() {
        use PrimitiveConvertedType::*;
        let code = sx::i32();
        let (some, p, s) = (sx::flag(), sx::i32(), sx::i32());
        let decimal = if some { Some((p, s)) } else { None };
        let r: Result<PrimitiveConvertedType, _> = (fmt::ConvertedType(code), decimal).try_into();
        let table = [(0, Utf8), (4, Enum), (6, Date), (7, TimeMillis), (8, TimeMicros), (9, TimestampMillis), (10, TimestampMicros),
            (11, Uint8), (12, Uint16), (13, Uint32), (14, Uint64), (15, Int8), (16, Int16), (17, Int32), (18, Int64),
            (19, Json), (20, Bson), (21, Interval)];
        let mut known = false;
        for (c, m) in table {
            if code == c {
                known = true;
                match &r {
                    Ok(x) => sx::check(*x == m, "type of the code"),
                    Err(_) => sx::check(false, "a type of the format is read"),
                }
                let back: (fmt::ConvertedType, Option<(i32, i32)>) = m.into();
                sx::check(back.0.0 == c, "code of the type");
                sx::check(back.1.is_none(), "no precision on other types");
                sx::reach("plain type");
            }
        }
        if code == 5 {
            known = true;
            match &r {
                Ok(x) => {
                    sx::check(some, "a decimal needs its precision");
                    sx::check((p >= 0) & (s >= 0), "negative precision or scale is refused");
                    sx::check(*x == Decimal(p as usize, s as usize), "precision and scale");
                    let back: (fmt::ConvertedType, Option<(i32, i32)>) = (*x).into();
                    sx::check(back.0.0 == 5, "code of the type");
                    sx::check(back.1 == Some((p, s)), "precision and scale are written back");
                    sx::reach("decimal");
                }
                Err(_) => {
                    sx::check(!some | (p < 0) | (s < 0), "a decimal is accepted");
                    sx::reach("bad decimal");
                }
            }
        }
        if !known {
            sx::check(r.is_err(), "a code of a group or outside the format is refused");
            sx::reach("refused");
        }
    }
    fn h_time_unit() {
        let k = sx::choose(3);
        let (f, u) = units()[k].clone();
        let got: TimeUnit = f.clone().into();
        sx::check(got == u, "unit read");
        let back: fmt::TimeUnit = u.into();
        sx::check(back == f, "unit written");
        sx::reach("unit");
    }
    fn h_logical() {
        use PrimitiveLogicalType as L;
        use fmt::LogicalType as F;
        let k = sx::choose(13);
        let utc = sx::bool();
        let (fu, u) = units()[sx::choose(3)].clone();
        let (p, s) = (sx::i32(), sx::i32());
        let f = match k {
            0 => F::STRING(Default::default()),
            1 => F::MAP(Default::default()),
            2 => F::LIST(Default::default()),
            3 => F::ENUM(Default::default()),
            4 => F::DECIMAL(fmt::DecimalType { precision: p, scale: s }),
            5 => F::DATE(Default::default()),
            6 => F::TIME(fmt::TimeType { is_adjusted_to_u_t_c: utc, unit: fu.clone() }),
            7 => F::TIMESTAMP(fmt::TimestampType { is_adjusted_to_u_t_c: utc, unit: fu.clone() }),
            8 => F::UNKNOWN(Default::default()),
            9 => F::JSON(Default::default()),
            10 => F::BSON(Default::default()),
            11 => F::UUID(Default::default()),
            _ => F::INTEGER(fmt::IntType { bit_width: [8, 16, 32, 64][sx::choose(4)], is_signed: utc }),
        };
        let r: Result<L, _> = f.clone().try_into();
        let g: Result<GroupLogicalType, _> = f.clone().try_into();
        let want = match k {
            0 => Some(L::String),
            3 => Some(L::Enum),
            4 => if (p >= 0) & (s >= 0) { Some(L::Decimal(p as usize, s as usize)) } else { None },
            5 => Some(L::Date),
            6 => Some(L::Time { unit: u, is_adjusted_to_utc: utc }),
            7 => Some(L::Timestamp { unit: u, is_adjusted_to_utc: utc }),
            8 => Some(L::Unknown),
            9 => Some(L::Json),
            10 => Some(L::Bson),
            11 => Some(L::Uuid),
            12 => {
                let F::INTEGER(i) = &f else { return };
                Some(L::Integer(match (i.bit_width, utc) {
                    (8, true) => IntegerType::Int8,
                    (16, true) => IntegerType::Int16,
                    (32, true) => IntegerType::Int32,
                    (64, true) => IntegerType::Int64,
                    (8, false) => IntegerType::UInt8,
                    (16, false) => IntegerType::UInt16,
                    (32, false) => IntegerType::UInt32,
                    _ => IntegerType::UInt64,
                }))
            }
            _ => None,
        };
        match (r, want) {
            (Ok(a), Some(b)) => {
                sx::check(a == b, "logical type read");
                let back: F = b.into();
                sx::check(back == f, "logical type written");
                sx::reach("logical");
            }
            (Err(_), None) => sx::reach("not of a primitive"),
            _ => sx::check(false, "accepted exactly when of a primitive and in range"),
        }
        match g {
            Ok(x) => {
                sx::check((k == 1) | (k == 2), "only lists and maps annotate groups");
                sx::check(x == if k == 1 { GroupLogicalType::Map } else { GroupLogicalType::List }, "group type read");
                let back: F = x.into();
                sx::check(back == f, "group type written");
                sx::reach("group");
            }
            Err(_) => sx::check((k != 1) & (k != 2), "lists and maps annotate groups"),
        }
    }
    fn h_levels() {
        match sx::choose(3) {
            0 => level!(BrotliLevel, sx::u32(), 0, 11),
            1 => level!(GzipLevel, sx::u8(), 0, 10),
            _ => level!(ZstdLevel, sx::i32(), 1, 22),
        }
    }
    // a chosen level does not change the codec
    fn h_options() {
        let k = sx::choose(8);
        let some = sx::flag();
        let n = 1 + sx::choose(9);
        let o = match k {
            0 => CompressionOptions::Uncompressed,
            1 => CompressionOptions::Snappy,
            2 => CompressionOptions::Gzip(if some { GzipLevel::try_new(n as u8).ok() } else { None }),
            3 => CompressionOptions::Lzo,
            4 => CompressionOptions::Brotli(if some { BrotliLevel::try_new(n as u32).ok() } else { None }),
            5 => CompressionOptions::Lz4,
            6 => CompressionOptions::Zstd(if some { ZstdLevel::try_new(n as i32).ok() } else { None }),
            _ => CompressionOptions::Lz4Raw,
        };
        let c: Compression = o.into();
        let f: fmt::CompressionCodec = o.into();
        let g: fmt::CompressionCodec = c.into();
        sx::check(f.0 == k as i32, "codec of the options");
        sx::check(g.0 == k as i32, "codec of the compression");
        sx::reach("options");
    }
}
