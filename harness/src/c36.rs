use crate::util::blank;
use crate::{harnesses, sx};
use parquet2::metadata::{get_sort_order, ColumnOrder, FileMetaData, SortOrder};
use parquet2::schema::types::*;
use parquet_format_safe as fmt;

use SortOrder::*;

#[inline(always)]
fn logical(k: usize) -> (Option<PrimitiveLogicalType>, Option<SortOrder>) {
    use IntegerType as I;
    use PrimitiveLogicalType as L;
    let utc = sx::bool();
    let unit = || [TimeUnit::Milliseconds, TimeUnit::Microseconds, TimeUnit::Nanoseconds][sx::choose(3)];
    let (l, o) = match k {
        0 => return (None, None),
        1 => (L::String, Unsigned),
        2 => (L::Enum, Unsigned),
        3 => (L::Decimal(sx::usize(), sx::usize()), Signed),
        4 => (L::Date, Signed),
        5 => (L::Time { unit: unit(), is_adjusted_to_utc: utc }, Signed),
        6 => (L::Timestamp { unit: unit(), is_adjusted_to_utc: utc }, Signed),
        7 => (L::Unknown, Undefined),
        8 => (L::Json, Unsigned),
        9 => (L::Bson, Unsigned),
        10 => (L::Uuid, Unsigned),
        11 => (L::Integer([I::Int8, I::Int16, I::Int32, I::Int64][sx::choose(4)]), Signed),
        _ => (L::Integer([I::UInt8, I::UInt16, I::UInt32, I::UInt64][sx::choose(4)]), Unsigned),
    };
    (Some(l), Some(o))
}
#[inline(always)]
fn converted(k: usize) -> (Option<PrimitiveConvertedType>, Option<SortOrder>) {
    use PrimitiveConvertedType::*;
    let (l, o) = match k {
        0 => return (None, None),
        1 => (Utf8, Unsigned),
        2 => (Enum, Unsigned),
        3 => (Decimal(sx::usize(), sx::usize()), Signed),
        4 => (Date, Signed),
        5 => (TimeMillis, Signed),
        6 => (TimeMicros, Signed),
        7 => (TimestampMillis, Signed),
        8 => (TimestampMicros, Signed),
        9 => (Uint8, Unsigned),
        10 => (Uint16, Unsigned),
        11 => (Uint32, Unsigned),
        12 => (Uint64, Unsigned),
        13 => (Int8, Signed),
        14 => (Int16, Signed),
        15 => (Int32, Signed),
        16 => (Int64, Signed),
        17 => (Json, Unsigned),
        18 => (Bson, Unsigned),
        _ => (Interval, Undefined),
    };
    (Some(l), Some(o))
}
#[inline(always)]
fn physical(k: usize) -> (PhysicalType, SortOrder) {
    use PhysicalType::*;
    match k {
        0 => (Boolean, Unsigned),
        1 => (Int32, Signed),
        2 => (Int64, Signed),
        3 => (Int96, Undefined),
        4 => (Float, Signed),
        5 => (Double, Signed),
        6 => (ByteArray, Unsigned),
        _ => (FixedLenByteArray(sx::usize()), Unsigned),
    }
}

harnesses! {
    fn h_order() {
        let (l, lo) = logical(sx::choose(13));
        let (c, co) = converted(sx::choose(20));
        let (p, po) = physical(sx::choose(8));
        let want = match (lo, co) {
            (Some(x), _) => x,
            (None, Some(x)) => x,
            (None, None) => po,
        };
        let got = get_sort_order(&l, &c, &p);
        sx::check(got == want, "sort order of the type");
        match got {
            Signed => sx::reach("signed"),
            Unsigned => sx::reach("unsigned"),
            Undefined => sx::reach("undefined"),
        }
    }
    // the orders listed in a file's metadata
    // P: columns, listed orders
    fn h_metadata() {
        let (n, k) = (sx::param(0), sx::param(1));
        let mut schema = vec![fmt::SchemaElement { num_children: Some(n as i32), ..blank("r") }];
        let mut want = vec![];
        for _ in 0..n {
            let (code, conv, o) = [
                (1, None, Signed), (2, Some(14), Unsigned), (6, Some(0), Unsigned), (3, None, Undefined), (1, Some(11), Unsigned), (0, None, Unsigned),
            ][sx::choose(6)];
            want.push(o);
            schema.push(fmt::SchemaElement {
                type_: Some(fmt::Type(code)),
                repetition_type: Some(fmt::FieldRepetitionType(sx::choose(2) as i32)),
                converted_type: conv.map(fmt::ConvertedType),
                ..blank("a")
            });
        }
        let given = sx::flag();
        let orders = (0..k).map(|_| fmt::ColumnOrder::TYPEORDER(Default::default())).collect();
        let m = fmt::FileMetaData {
            version: 1,
            schema,
            num_rows: 0,
            row_groups: vec![],
            key_value_metadata: None,
            created_by: None,
            column_orders: if given { Some(orders) } else { None },
            encryption_algorithm: None,
            footer_signing_key_metadata: None,
        };
        match FileMetaData::try_from_thrift(m) {
            Err(_) => sx::check(false, "a valid file is accepted"),
            Ok(m) => {
                for i in 0..n {
                    let o = m.column_order(i);
                    if given & (i < k) {
                        sx::check(o == ColumnOrder::TypeDefinedOrder(want[i]), "order of the column's type");
                        sx::check(o.sort_order() == want[i], "order of the column's type");
                        sx::reach("listed");
                    } else {
                        sx::check(o == ColumnOrder::Undefined, "undefined when not listed");
                        sx::check(o.sort_order() == Signed, "the legacy order is signed");
                        sx::reach("not listed");
                    }
                }
            }
        }
    }
}
