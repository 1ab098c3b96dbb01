use crate::{harnesses, sx};
use parquet2::metadata::{FileMetaData, SchemaDescriptor};
use parquet2::schema::types::*;
use parquet2::schema::Repetition;
use parquet_format_safe as fmt;

#[inline(always)]
fn name() -> String {
    let c = sx::u8() & 0x7f;
    unsafe { String::from_utf8_unchecked(vec![c]) }
}
fn repetition() -> Repetition {
    match sx::choose(3) {
        0 => Repetition::Required,
        1 => Repetition::Optional,
        _ => Repetition::Repeated,
    }
}
fn id() -> Option<i32> {
    if sx::flag() {
        Some(sx::i32())
    } else {
        None
    }
}
#[inline(always)]
fn converted(k: usize) -> Option<PrimitiveConvertedType> {
    use PrimitiveConvertedType::*;
    Some(match k {
        0 => return None,
        1 => Utf8,
        2 => Enum,
        3 => Decimal(sx::u32() as usize, sx::u32() as usize),
        4 => Date,
        5 => TimeMillis,
        6 => TimeMicros,
        7 => TimestampMillis,
        8 => TimestampMicros,
        9 => Uint8,
        10 => Uint16,
        11 => Uint32,
        12 => Uint64,
        13 => Int8,
        14 => Int16,
        15 => Int32,
        16 => Int64,
        17 => Json,
        18 => Bson,
        _ => Interval,
    })
}
#[inline(always)]
fn logical(k: usize) -> Option<PrimitiveLogicalType> {
    use IntegerType as I;
    use PrimitiveLogicalType as L;
    let utc = sx::bool();
    let unit = || [TimeUnit::Milliseconds, TimeUnit::Microseconds, TimeUnit::Nanoseconds][sx::choose(3)];
    Some(match k {
        0 => return None,
        1 => L::String,
        2 => L::Enum,
        3 => L::Decimal(sx::u32() as usize, sx::u32() as usize),
        4 => L::Date,
        5 => L::Time { unit: unit(), is_adjusted_to_utc: utc },
        6 => L::Timestamp { unit: unit(), is_adjusted_to_utc: utc },
        7 => L::Unknown,
        8 => L::Json,
        9 => L::Bson,
        10 => L::Uuid,
        _ => L::Integer([I::Int8, I::Int16, I::Int32, I::Int64, I::UInt8, I::UInt16, I::UInt32, I::UInt64][sx::choose(8)]),
    })
}
fn physical(k: usize) -> PhysicalType {
    use PhysicalType::*;
    match k {
        0 => Boolean,
        1 => Int32,
        2 => Int64,
        3 => Int96,
        4 => Float,
        5 => Double,
        6 => ByteArray,
        7 => FixedLenByteArray(12),
        8 => FixedLenByteArray(16),
        _ => FixedLenByteArray(sx::u32() as usize & 0x7fff_ffff),
    }
}
#[inline(always)]
fn fits(d: usize) -> bool {
    d <= i32::MAX as usize
}
fn tree(budget: &mut usize, depth: usize) -> ParquetType {
    *budget -= 1;
    let rep = repetition();
    if depth == 0 || sx::flag() {
        return ParquetType::try_from_primitive(name(), physical(*budget % 3), rep, None, None, Some(sx::i32())).unwrap_or_else(|_| panic!());
    }
    let mut fields = vec![];
    let n = name();
    let (c, l) = match *budget % 4 {
        0 => (None, None),
        1 => (Some(GroupConvertedType::List), Some(GroupLogicalType::List)),
        2 => (Some(GroupConvertedType::Map), Some(GroupLogicalType::Map)),
        _ => (Some(GroupConvertedType::MapKeyValue), None),
    };
    while *budget > 0 && sx::flag() {
        fields.push(tree(budget, depth - 1));
    }
    ParquetType::from_group(n, rep, c, l, fields, None)
}
fn metadata(schema_descr: SchemaDescriptor) -> FileMetaData {
    FileMetaData { version: 1, num_rows: 0, created_by: None, row_groups: vec![], key_value_metadata: None, schema_descr, column_orders: None }
}
fn roundtrip(n: String, fields: Vec<ParquetType>) -> bool {
    let s = SchemaDescriptor::new(n.clone(), fields.clone());
    let t = metadata(s).into_thrift();
    match ParquetType::try_from_thrift(&t.schema) {
        Err(_) => return false,
        Ok(ParquetType::GroupType { field_info, fields: f, logical_type: None, converted_type: None }) => {
            sx::check(field_info.name == n, "name of the root");
            sx::check(f == fields, "the same tree");
        }
        Ok(_) => sx::check(false, "the same tree"),
    }
    match FileMetaData::try_from_thrift(t) {
        Err(_) => sx::check(false, "the same schema"),
        Ok(m) => {
            sx::check(m.schema().name() == n, "name of the schema");
            sx::check(m.schema().fields() == fields, "the same schema");
        }
    }
    true
}

// ---- any flat form, against the definition of the format
#[derive(Clone, Copy)]
struct El {
    children: Option<i32>,
    t: Option<i32>,
    len: Option<i32>,
    rep: Option<i32>,
    conv: Option<i32>,
    prec: Option<(i32, i32)>,
}
/// end of the tree that starts at `i`, None when it is malformed
fn parse(e: &[El], i: usize, out: &mut Vec<(usize, bool)>) -> Option<usize> {
    if i >= e.len() {
        return None;
    }
    let x = e[i];
    let group = match (x.children, x.t) {
        (None, _) => false,
        (Some(n), t) => {
            if n < 0 {
                return None;
            }
            n > 0 || t.is_none()
        }
    };
    let rep_ok = match x.rep {
        Some(r) => (r >= 0) & (r <= 2),
        None => group && i == 0,
    };
    out.push((i, group));
    if group {
        let n = x.children.unwrap_or(0);
        let mut at = i + 1;
        for k in 0..n {
            if k as usize > e.len() {
                return None;
            }
            at = parse(e, at, out)?;
        }
        // the root's repetition and annotations mean nothing
        if i > 0 {
            if !rep_ok {
                return None;
            }
            if let Some(c) = x.conv {
                if !((c >= 1) & (c <= 3)) {
                    return None;
                }
            }
        }
        Some(at)
    } else {
        if !rep_ok {
            return None;
        }
        let t = x.t?;
        if !((t >= 0) & (t <= 7)) {
            return None;
        }
        let mut length = 0;
        if t == 7 {
            length = x.len?;
            if length < 0 {
                return None;
            }
        }
        if let Some(c) = x.conv {
            let ok = match c {
                0 | 4 | 19 | 20 => t == 6,
                5 => match x.prec {
                    None => false,
                    Some((p, s)) => {
                        let max = match t {
                            1 => 9,
                            2 => 18,
                            6 => i32::MAX,
                            _ => 0,
                        };
                        (p > 0) & (p <= max) & (s >= 0) & (s <= p)
                    }
                },
                6 | 7 | 11 | 12 | 13 | 15 | 16 | 17 => t == 1,
                8 | 9 | 10 | 14 | 18 => t == 2,
                21 => (t == 7) & (length == 12),
                _ => false,
            };
            if !ok {
                return None;
            }
        }
        Some(i + 1)
    }
}
fn maybe(k: usize) -> Option<i32> {
    match sx::choose(2) {
        0 => None,
        _ => Some(match k {
            0 => sx::i32(),
            k => k as i32,
        }),
    }
}
fn walk(t: &ParquetType, e: &[El], order: &[(usize, bool)], at: &mut usize) {
    sx::check(*at < order.len(), "no more elements than stored");
    let (i, group) = order[*at];
    *at += 1;
    let x = e[i];
    let info = t.get_field_info();
    sx::check(info.name.len() == 1 && info.name.as_bytes()[0] == b'a' + i as u8, "name of the element");
    sx::check(info.id == if i == 0 && group { None } else { Some(i as i32) }, "id of the element");
    if i > 0 || !group {
        let code = match info.repetition {
            Repetition::Required => 0,
            Repetition::Optional => 1,
            Repetition::Repeated => 2,
        };
        sx::check(x.rep == Some(code), "repetition of the element");
    }
    match t {
        ParquetType::PrimitiveType(p) => {
            sx::check(!group, "a group stays a group");
            let (c, len) = match p.physical_type {
                PhysicalType::Boolean => (0, 0),
                PhysicalType::Int32 => (1, 0),
                PhysicalType::Int64 => (2, 0),
                PhysicalType::Int96 => (3, 0),
                PhysicalType::Float => (4, 0),
                PhysicalType::Double => (5, 0),
                PhysicalType::ByteArray => (6, 0),
                PhysicalType::FixedLenByteArray(n) => (7, n),
            };
            sx::check(x.t == Some(c), "type of the element");
            sx::check(c != 7 || x.len == Some(len as i32), "length of the element");
            sx::check(p.converted_type.is_some() == x.conv.is_some(), "annotation of the element");
            sx::reach("column");
        }
        ParquetType::GroupType { fields, converted_type, .. } => {
            sx::check(group, "a column stays a column");
            let n = x.children.unwrap_or(-1);
            sx::check(fields.len() as i32 == n, "number of children");
            sx::check(i == 0 || converted_type.is_some() == x.conv.is_some(), "annotation of the element");
            for f in fields {
                walk(f, e, order, at);
            }
            sx::reach("group");
        }
    }
}
fn element(i: usize, x: El) -> fmt::SchemaElement {
    fmt::SchemaElement {
        name: unsafe { String::from_utf8_unchecked(vec![b'a' + i as u8]) },
        type_: x.t.map(fmt::Type),
        type_length: x.len,
        repetition_type: x.rep.map(fmt::FieldRepetitionType),
        num_children: x.children,
        converted_type: x.conv.map(fmt::ConvertedType),
        scale: x.prec.map(|x| x.1),
        precision: x.prec.map(|x| x.0),
        field_id: Some(i as i32),
        logical_type: None,
    }
}
fn compare(e: &[El]) {
    let elements: Vec<_> = e.iter().enumerate().map(|(i, x)| element(i, *x)).collect();
    let mut order = vec![];
    let want = parse(e, 0, &mut order);
    // exactly one tree, which takes every element
    let ok = want == Some(e.len());
    match ParquetType::try_from_thrift(&elements) {
        Ok(t) => {
            sx::check(ok, "a malformed schema is refused");
            let mut at = 0;
            walk(&t, e, &order, &mut at);
            sx::check(at == e.len(), "every element is in the tree");
            sx::reach("read");
        }
        Err(_) => {
            sx::check(!ok, "a well-formed schema is accepted");
            sx::reach("refused");
        }
    }
    let m = fmt::FileMetaData {
        version: 1,
        schema: elements,
        num_rows: 0,
        row_groups: vec![],
        key_value_metadata: None,
        created_by: None,
        column_orders: None,
        encryption_algorithm: None,
        footer_signing_key_metadata: None,
    };
    let group = !order.is_empty() && order[0].1;
    match FileMetaData::try_from_thrift(m) {
        Ok(_) => sx::check(ok && group, "a root that is not a group is refused"),
        Err(_) => sx::check(!(ok && group), "a well-formed schema is accepted"),
    }
}

harnesses! {
    // [where]: a group with every combination of annotations, any identifier and any one-character name
    fn h_annotated() {
        let c = [None, Some(GroupConvertedType::List), Some(GroupConvertedType::Map), Some(GroupConvertedType::MapKeyValue)][sx::choose(4)];
        let l = [None, Some(GroupLogicalType::List), Some(GroupLogicalType::Map)][sx::choose(3)];
        let n = name();
        let leaf = || ParquetType::try_from_primitive(name(), PhysicalType::Int32, repetition(), None, None, id()).unwrap_or_else(|_| panic!());
        let i = id();
        let r = repetition();
        let g = ParquetType::from_group(n.clone(), r, c, l, if sx::param(0) == 2 { vec![] } else { vec![leaf()] }, i);
        match &g {
            ParquetType::GroupType { field_info, logical_type, converted_type, fields } => {
                sx::check(field_info.name == n && field_info.id == i && field_info.repetition == r && *logical_type == l && *converted_type == c && fields.len() == (sx::param(0) != 2) as usize, "the group as constructed");
            }
            _ => sx::check(false, "the group as constructed"),
        }
        let fields = match sx::param(0) {
            0 | 2 => vec![g],
            1 => vec![leaf(), g],
            _ => vec![ParquetType::from_group(name(), repetition(), l.and(c), l, vec![g], id())],
        };
        sx::check(roundtrip(name(), fields), "the schema is refused");
        sx::reach("annotated");
    }
    // P: nodes, depth
    fn h_tree() {
        let mut budget = sx::param(0);
        let mut fields = vec![];
        while budget > 0 && sx::flag() {
            fields.push(tree(&mut budget, sx::param(1)));
        }
        let ok = roundtrip(name(), fields);
        sx::check(ok, "a schema is read back");
        sx::reach("tree");
    }
    // one column of any type
    // P: first physical type, number of physical types
    fn h_column() {
        let k = sx::param(0) + sx::choose(sx::param(1));
        let free = k == 9;
        let p = physical(k);
        let (c, l) = match sx::choose(3) {
            0 => (converted(sx::choose(20)), None),
            1 => (None, logical(sx::choose(12))),
            _ => { let k = sx::choose(5); (converted(k), logical(k)) }
        };
        // decimals of other fixed lengths: C31
        let dec = matches!(c, Some(PrimitiveConvertedType::Decimal(..))) | matches!(l, Some(PrimitiveLogicalType::Decimal(..)));
        if dec && free { return; }
        if let Some(PrimitiveConvertedType::Decimal(a, b)) = c { sx::assume(fits(a) & fits(b)); }
        if let Some(PrimitiveLogicalType::Decimal(a, b)) = l { sx::assume(fits(a) & fits(b)); }
        match ParquetType::try_from_primitive(name(), p, repetition(), c, l, id()) {
            Ok(t) => {
                let ok = roundtrip("r".to_string(), vec![t]);
                sx::check(ok, "a column type is read back");
                sx::reach("column type");
            }
            Err(_) => sx::reach("not a type"),
        }
    }
    // child counts: any number, of groups and columns that are otherwise well formed
    // P: elements
    fn h_children() {
        let n = sx::param(0);
        let mut e = vec![];
        for _ in 0..n {
            e.push(El { children: maybe(0), t: maybe(1), len: None, rep: Some(1), conv: None, prec: None });
        }
        compare(&e);
    }
    // one element of any form below a root
    fn h_element() {
        let root = El { children: Some(1), t: None, len: None, rep: maybe(0), conv: None, prec: None };
        let x = El { children: [None, Some(0)][sx::choose(2)], t: maybe(0), len: maybe(0), rep: maybe(0), conv: maybe(0),
            prec: if sx::flag() { Some((sx::i32(), sx::i32())) } else { None } };
        // decimals of fixed length: C31
        sx::assume(!((x.t == Some(7)) & (x.conv == Some(5))));
        compare(&[root, x]);
    }
    // a group below a root, with one column
    fn h_group() {
        let root = El { children: Some(1), t: None, len: None, rep: None, conv: None, prec: None };
        let g = El { children: Some(1), t: None, len: None, rep: maybe(0), conv: maybe(0), prec: None };
        let x = El { children: None, t: Some(1), len: None, rep: Some(0), conv: None, prec: None };
        compare(&[root, g, x]);
    }
    fn h_root_column() {
        compare(&[El { children: maybe(0), t: maybe(1), len: None, rep: maybe(1), conv: None, prec: None }]);
    }
}
