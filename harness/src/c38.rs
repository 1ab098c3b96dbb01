use crate::{harnesses, sx};
use parquet2::metadata::SchemaDescriptor;
use parquet2::schema::io_message::from_message;
use parquet2::schema::types::*;
use parquet2::schema::Repetition;

// ---- reference: the grammar of schema texts, on ASCII
//   message  := "message" name fields
//   fields   := "{" field* "}"
//   field    := repetition ("group" name ["(" group-annotation ")"] ["=" int] fields | type name ["(" annotation ")"] ["=" int] ";")
fn is_delim(c: u8) -> bool { (c == b';') | (c == b'{') | (c == b'}') | (c == b'(') | (c == b')') | (c == b'=') | (c == b',') }
fn is_space(c: u8) -> bool { (c == b' ') | ((c >= 9) & (c <= 13)) }
fn tokens(t: &[u8]) -> Vec<&[u8]> {
    let mut v = vec![];
    let mut from = 0;
    for i in 0..t.len() {
        let d = is_delim(t[i]);
        if d | is_space(t[i]) {
            if from < i { v.push(&t[from..i]); }
            if d { v.push(&t[i..i + 1]); }
            from = i + 1;
        }
    }
    if from < t.len() { v.push(&t[from..]); }
    v
}
/// equal up to the case of letters (`b` is in upper case)
fn word(a: &[u8], b: &str) -> bool {
    let b = b.as_bytes();
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() {
        let c = a[i];
        let up = if (c >= b'a') & (c <= b'z') { c - 32 } else { c };
        ok &= up == b[i];
    }
    ok
}
fn exact(a: &[u8], b: &str) -> bool {
    let b = b.as_bytes();
    if a.len() != b.len() { return false; }
    let mut ok = true;
    for i in 0..a.len() { ok &= a[i] == b[i]; }
    ok
}
fn int(a: &[u8]) -> Option<i32> {
    let (sign, d) = if a[0] == b'-' { (-1i64, &a[1..]) } else if a[0] == b'+' { (1, &a[1..]) } else { (1, a) };
    if d.is_empty() { return None; }
    let mut v = 0i64;
    let mut ok = true;
    for c in d {
        ok &= (*c >= b'0') & (*c <= b'9');
        v = (v * 10 + (c & 15) as i64).min(1 << 40);
    }
    v *= sign;
    if ok & (v >= i32::MIN as i64) & (v <= i32::MAX as i64) { Some(v as i32) } else { None }
}
struct P<'a> { t: Vec<&'a [u8]>, i: usize }
impl<'a> P<'a> {
    fn peek(&self, s: &str) -> bool { self.i < self.t.len() && exact(self.t[self.i], s) }
    fn eat(&mut self, s: &str) -> Option<()> { if self.peek(s) { self.i += 1; Some(()) } else { None } }
    fn next(&mut self) -> Option<&'a [u8]> { let x = self.t.get(self.i).copied(); self.i += 1; x }
    fn name(&mut self) -> Option<String> {
        let x = self.next()?;
        if x.len() == 1 && is_delim(x[0]) { return None; }
        Some(String::from_utf8(x.to_vec()).unwrap())
    }
    fn id(&mut self) -> Option<Option<i32>> { if self.peek("=") { self.i += 1; Some(Some(int(self.next()?)?)) } else { Some(None) } }
    fn message(&mut self) -> Option<ParquetType> {
        self.eat("message")?;
        let name = self.name()?;
        let f = self.fields()?;
        if self.i != self.t.len() { return None; }
        Some(ParquetType::GroupType { field_info: FieldInfo { name, repetition: Repetition::Optional, id: None }, logical_type: None, converted_type: None, fields: f })
    }
    fn fields(&mut self) -> Option<Vec<ParquetType>> {
        self.eat("{")?;
        let mut v = vec![];
        while !self.peek("}") { v.push(self.field()?); }
        self.i += 1;
        Some(v)
    }
    fn field(&mut self) -> Option<ParquetType> {
        let r = self.next()?;
        let r = if word(r, "REQUIRED") { Repetition::Required } else if word(r, "OPTIONAL") { Repetition::Optional } else if word(r, "REPEATED") { Repetition::Repeated } else { return None };
        let t = self.next()?;
        if word(t, "GROUP") {
            let name = self.name()?;
            let mut c = None;
            if self.peek("(") {
                self.i += 1;
                let k = self.next()?;
                c = Some(if word(k, "MAP") { GroupConvertedType::Map } else if word(k, "LIST") { GroupConvertedType::List } else if word(k, "MAP_KEY_VALUE") { GroupConvertedType::MapKeyValue } else { return None });
                self.eat(")")?;
            }
            let id = self.id()?;
            let f = self.fields()?;
            return Some(ParquetType::from_converted(name, f, r, c, id));
        }
        use PhysicalType as T;
        let t = if word(t, "BOOLEAN") { T::Boolean } else if word(t, "INT32") { T::Int32 } else if word(t, "INT64") { T::Int64 } else if word(t, "INT96") { T::Int96 } else if word(t, "FLOAT") { T::Float }
            else if word(t, "DOUBLE") { T::Double } else if word(t, "BYTE_ARRAY") || word(t, "BINARY") { T::ByteArray } else if word(t, "FIXED_LEN_BYTE_ARRAY") {
            self.eat("(")?;
            let n = int(self.next()?)?;
            self.eat(")")?;
            if n < 0 { return None; }
            T::FixedLenByteArray(n as usize)
        } else { return None };
        let name = self.name()?;
        let (mut c, mut l) = (None, None);
        if self.peek("(") {
            self.i += 1;
            let k = self.next()?;
            let x = self.annotation(k)?;
            c = x.0;
            l = x.1;
            self.eat(")")?;
        }
        let id = self.id()?;
        self.eat(";")?;
        ParquetType::try_from_primitive(name, t, r, c, l, id).ok()
    }
    fn flag(&mut self) -> Option<bool> { let x = self.next()?; if word(x, "TRUE") { Some(true) } else if word(x, "FALSE") { Some(false) } else { None } }
    fn time(&mut self) -> Option<(TimeUnit, bool)> {
        if !self.peek("(") { return Some((TimeUnit::Milliseconds, false)); }
        self.i += 1;
        let u = self.next()?;
        let u = if word(u, "MILLIS") { TimeUnit::Milliseconds } else if word(u, "MICROS") { TimeUnit::Microseconds } else if word(u, "NANOS") { TimeUnit::Nanoseconds } else { return None };
        let mut utc = false;
        if self.peek(",") { self.i += 1; utc = self.flag()?; }
        self.eat(")")?;
        Some((u, utc))
    }
    fn annotation(&mut self, k: &[u8]) -> Option<(Option<PrimitiveConvertedType>, Option<PrimitiveLogicalType>)> {
        use PrimitiveConvertedType as C;
        use PrimitiveLogicalType as L;
        let l = |x| Some((None, Some(x)));
        if word(k, "DECIMAL") {
            if !self.peek("(") { return l(L::Decimal(0, 0)); }
            self.i += 1;
            let p = int(self.next()?)?;
            let mut s = 0;
            if self.peek(",") { self.i += 1; s = int(self.next()?)?; }
            self.eat(")")?;
            if (p < 0) | (s < 0) { return None; }
            return l(L::Decimal(p as usize, s as usize));
        }
        if word(k, "TIME") { let (unit, is_adjusted_to_utc) = self.time()?; return l(L::Time { unit, is_adjusted_to_utc }); }
        if word(k, "TIMESTAMP") { let (unit, is_adjusted_to_utc) = self.time()?; return l(L::Timestamp { unit, is_adjusted_to_utc }); }
        if word(k, "INTEGER") {
            self.eat("(")?;
            let w = int(self.next()?)?;
            self.eat(",")?;
            let s = self.flag()?;
            self.eat(")")?;
            use IntegerType::*;
            let t = match (w, s) { (8, true) => Int8, (16, true) => Int16, (32, true) => Int32, (64, true) => Int64, (8, false) => UInt8, (16, false) => UInt16, (32, false) => UInt32, (64, false) => UInt64, _ => return None };
            return l(L::Integer(t));
        }
        for (w, x) in [("STRING", L::String), ("ENUM", L::Enum), ("DATE", L::Date), ("JSON", L::Json), ("BSON", L::Bson), ("UUID", L::Uuid), ("UNKNOWN", L::Unknown)] { if word(k, w) { return l(x); } }
        for (w, x) in [("UTF8", C::Utf8), ("TIME_MILLIS", C::TimeMillis), ("TIME_MICROS", C::TimeMicros), ("TIMESTAMP_MILLIS", C::TimestampMillis), ("TIMESTAMP_MICROS", C::TimestampMicros), ("UINT_8", C::Uint8), ("UINT_16", C::Uint16),
            ("UINT_32", C::Uint32), ("UINT_64", C::Uint64), ("INT_8", C::Int8), ("INT_16", C::Int16), ("INT_32", C::Int32), ("INT_64", C::Int64), ("INTERVAL", C::Interval)] { if word(k, w) { return Some((Some(x), None)); } }
        None
    }
}
fn reference(t: &[u8]) -> Option<ParquetType> { P { t: tokens(t), i: 0 }.message() }

const TEXT: [&str; 7] = [
    "message m { required int32 a; }",
    "message m{optional fixed_len_byte_array(12) a (interval)=7;repeated group g (list)=3 { required int64 b (timestamp(micros,true)); } }",
    "message m { required int32 a (decimal(8,2)); optional int32 b (integer(16,false)) = 2; required binary c (utf8); }",
    "message m { required group g { repeated group h (map_key_value) { } } optional int64 t (time_micros) = -1; }",
    "message { { required boolean x; }",
    "message\tm\n{ optional double (; required float f = 1x; } }",
    "message m { repeated int96 a;; optional byte_array b (string(3)); required group g",
];
// annotations and the type they fit
const WORDS: [(&str, &str); 31] = [
    ("UTF8", "binary"), ("ENUM", "binary"), ("DECIMAL(9,3)", "int32"), ("DATE", "int32"), ("TIME_MILLIS", "int32"), ("TIME_MICROS", "int64"), ("TIMESTAMP_MILLIS", "int64"), ("TIMESTAMP_MICROS", "int64"),
    ("UINT_8", "int32"), ("UINT_16", "int32"), ("UINT_32", "int32"), ("UINT_64", "int64"), ("INT_8", "int32"), ("INT_16", "int32"), ("INT_32", "int32"), ("INT_64", "int64"), ("JSON", "binary"), ("BSON", "binary"),
    ("INTERVAL", "fixed_len_byte_array(12)"), ("STRING", "binary"), ("UUID", "fixed_len_byte_array(16)"), ("UNKNOWN", "int32"), ("TIME", "int32"), ("TIME(MICROS,FALSE)", "int64"), ("TIME(NANOS)", "int64"),
    ("TIMESTAMP(NANOS,TRUE)", "int64"), ("TIMESTAMP", "int64"), ("INTEGER(8,TRUE)", "int32"), ("INTEGER(64,FALSE)", "int64"), ("DECIMAL(9)", "int32"), ("TIMESTAMP(MILLIS)", "int64"),
];
fn compare(t: &[u8]) {
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    match (from_message(s), reference(t)) {
        (Ok(a), Some(b)) => { sx::check(a == b, "another schema"); sx::reach("parsed"); }
        (Err(_), None) => { sx::check(true, "refused"); sx::reach("refused"); }
        (Ok(_), None) => sx::check(false, "malformed text is accepted"),
        (Err(_), Some(_)) => sx::check(false, "text is refused"),
    }
    // the same way in through the schema
    if sx::param(9) == 1 { sx::check(SchemaDescriptor::try_from_message(s).is_ok() == reference(t).is_some(), "schema from a message"); }
}
fn ascii() -> u8 { sx::u8() & 0x7f }

harnesses! {
    // [text, position]: any ASCII byte in place of one
    fn h_byte() {
        let mut t = TEXT[sx::param(0)].as_bytes().to_vec();
        if sx::param(1) >= t.len() { sx::check(true, ""); return; }
        t[sx::param(1)] = ascii();
        compare(&t);
    }
    // [text, position, how many]: any ASCII bytes inserted
    fn h_insert() {
        let mut t = TEXT[sx::param(0)].as_bytes().to_vec();
        if sx::param(1) > t.len() { sx::check(true, ""); return; }
        for _ in 0..sx::param(2) { t.insert(sx::param(1), ascii()); }
        compare(&t);
    }
    // [text, position, how many]: bytes removed
    fn h_cut() {
        let mut t = TEXT[sx::param(0)].as_bytes().to_vec();
        if sx::param(1) + sx::param(2) > t.len() { sx::check(true, ""); return; }
        t.drain(sx::param(1)..sx::param(1) + sx::param(2));
        let n = t.len();
        t[(sx::param(1) + 3) % n] = ascii();
        compare(&t);
    }
    // [annotation, type]: words in any case
    fn h_words() {
        let (a, ty) = WORDS[sx::param(0)];
        let mut t = b"message M { ".to_vec();
        let upper = sx::u8() & 32;
        let mixed = |t: &mut Vec<u8>, s: &str, m: u8| for (i, c) in s.bytes().enumerate() {
            t.push(if c.is_ascii_alphabetic() { let bit = if i % 3 == 0 { m } else if i % 3 == 1 { upper } else { 32 - upper }; (c & !32) | bit } else { c });
        };
        mixed(&mut t, ["required", "optional", "repeated"][sx::param(0) % 3], sx::u8() & 32);
        t.push(b' ');
        mixed(&mut t, if sx::param(1) == 0 { ty } else { "boolean" }, 32);
        t.extend_from_slice(b" Name (");
        mixed(&mut t, a, sx::u8() & 32);
        t.extend_from_slice(b") = 12; }");
        compare(&t);
        sx::reach("words");
    }
    // [which number, characters]: numbers of any digits
    fn h_digits() {
        let n = sx::param(1);
        let (a, b) = [
            ("message m { required fixed_len_byte_array(", ") a; }"),
            ("message m { required int64 a (decimal(", ",1)); }"),
            ("message m { required binary a (decimal(18,", ")); }"),
            ("message m { required int32 a (integer(", ",true)); }"),
            ("message m { required int32 a = ", "; }"),
            ("message m { required group a = ", " { } }"),
            ("message m { required fixed_len_byte_array(3) a (decimal(", ")); }"),
        ][sx::param(0)];
        let mut t = a.as_bytes().to_vec();
        if sx::param(2) == 1 { t.push(b'-'); }
        t.extend_from_slice(["", "21474836", "92233720368547758", "184467440737095516", "42949672", "0000000000000000"][sx::param(3)].as_bytes());
        for _ in 0..n { let d = sx::u8() & 15; sx::assume(d < 10); t.push(b'0' + d); }
        t.extend_from_slice(b.as_bytes());
        compare(&t);
        sx::reach("digits");
    }
    // [bytes, letters]: names of any letters
    fn h_names() {
        let mut t = b"message ".to_vec();
        let name = |t: &mut Vec<u8>| for _ in 0..sx::param(0) { let c = ascii(); sx::assume(!is_delim(c) & !is_space(c)); t.push(c); };
        name(&mut t);
        t.extend_from_slice(b" { optional group ");
        name(&mut t);
        t.extend_from_slice(b"{ required int96 ");
        name(&mut t);
        t.extend_from_slice(b";} }");
        compare(&t);
        sx::reach("names");
    }
    // [bytes]: any ASCII text
    fn h_any() {
        let t: Vec<u8> = (0..sx::param(0)).map(|_| ascii()).collect();
        compare(&t);
        sx::reach("any");
    }
    // [levels]: nesting
    fn h_deep() {
        let mut t = "message m {".to_string();
        for _ in 0..sx::param(0) { t.push_str("required group g {"); }
        if sx::param(1) == 1 { for _ in 0..=sx::param(0) { t.push_str("}"); } }
        let r = from_message(&t);
        if sx::param(0) <= 60 { sx::check(r.is_ok() == (sx::param(1) == 1), "nested text"); } else { sx::check(true, "no overflow of the stack"); }
        sx::reach("deep");
    }
    // names that are not ASCII
    fn h_unicode() {
        let t = "message \u{e9} { required int32 \u{4e2d}(date) = 1; optional group \u{1f600} { } }";
        match from_message(t) {
            Ok(x) => {
                let f = match &x { ParquetType::GroupType { fields, .. } => fields, _ => return sx::check(false, "group") };
                sx::check(x.name() == "\u{e9}" && f.len() == 2 && f[0].name() == "\u{4e2d}" && f[1].name() == "\u{1f600}", "names");
                sx::reach("unicode");
            }
            Err(_) => sx::check(false, "names are refused"),
        }
    }
}
