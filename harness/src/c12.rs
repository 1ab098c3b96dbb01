use crate::util::*;
use crate::{harnesses, sx};
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::HybridRleDecoder;
use parquet2::encoding::Encoding;
use parquet2::error::Error;
use parquet2::metadata::Descriptor;
use parquet2::page::DataPage;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition;
use parquet2::types::NativeType;

/// n levels below or equal `max` as one bit-packed run, and which of them are present (each decided)
fn levels(n: usize, max: usize) -> (Vec<u8>, Vec<bool>) {
    let mut w = 0;
    while max >> w > 0 { w += 1; }
    let groups = (n + 7) / 8;
    let mut b = vec![(groups << 1) as u8 | 1];
    let p = sx::bytes(groups * w);
    let mut present = vec![];
    for i in 0..n {
        let l = unpack_ref(&p, i, w) as usize;
        sx::assume(l <= max);
        present.push(sx::concrete((l == max) as usize) == 1);
    }
    b.extend_from_slice(&p);
    (b, present)
}

/// a dictionary page body: bit width, then indices as one bit-packed run
fn indices(n: usize, w: usize) -> (Vec<u8>, Vec<u32>) {
    let groups = (n + 7) / 8;
    let mut b = vec![w as u8];
    if w == 0 {
        // any run-length run of zero width
        b.push(((n as u8) + 1) << 1);
        return (b, vec![0; n]);
    }
    b.push((groups << 1) as u8 | 1);
    let p = sx::bytes(groups * w);
    b.extend_from_slice(&p);
    (b, (0..n).map(|i| unpack_ref(&p, i, w) as u32).collect())
}

/// (page, presence, number of values)
fn make(t: PhysicalType, rep: Repetition, max_def: usize, max_rep: usize, version: usize, n: usize, e: Encoding, values: impl Fn(usize) -> Vec<u8>) -> (DataPage, Vec<bool>) {
    let d: Descriptor = descriptor(t, rep, max_def as i16, max_rep as i16);
    let (def, present) = if max_def > 0 { levels(n, max_def) } else { (vec![], vec![true; n]) };
    let count = present.iter().filter(|x| **x).count();
    let body = values(count);
    // repetition levels are not looked at when values are decoded
    let r = sx::bytes(if max_rep > 0 { 2 } else { 0 });
    (page(version, n, e, d, &r, &def, &body), present)
}

#[inline(always)]
fn validity(l: DefLevelsDecoder, present: &[bool]) {
    let got: Vec<bool> = match l {
        DefLevelsDecoder::Bitmap(it) => HybridRleBooleanIter::new(it).map(|x| x.unwrap()).collect(),
        DefLevelsDecoder::Levels(it, max) => it.map(|x| x.unwrap() == max).collect(),
    };
    sx::check(got.len() == present.len(), "one level per value");
    for i in 0..got.len() {
        sx::check(got[i] == present[i], "null where the levels say so");
    }
}
#[inline(always)]
fn items<'a, T: AsRef<[u8]>, I: Iterator<Item = T>>(it: I, raw: &[Vec<u8>]) {
    let mut i = 0;
    for x in it {
        sx::check(i < raw.len(), "no more values than stored");
        sx::check(eq_bytes(x.as_ref(), &raw[i]), "stored value");
        i += 1;
    }
    sx::check(i == raw.len(), "every stored value");
}
#[inline(always)]
fn coded<D: PartialEq>(idx: HybridRleDecoder, dict: &[D], d: &[D], want: &[u32]) {
    sx::check(dict == d, "the caller's dictionary");
    sx::check(idx.size_hint().0 >= want.len(), "an index per value");
    let mut i = 0;
    for x in idx.take(want.len()) {
        let x = x.unwrap();
        sx::check(x == want[i], "dictionary index");
        i += 1;
    }
    sx::check(i == want.len(), "every index");
}

fn raws(n: usize, size: usize) -> Vec<Vec<u8>> {
    (0..n).map(|_| sx::bytes(size)).collect()
}
struct Shape {
    n: usize,
    optional: bool,
    max_def: usize,
    max_rep: usize,
    version: usize,
    dict: Option<usize>, // bit width
}
// P: values, maximum level (0 = required), version, bit width of the indices + 1 (0 = plain), repetition
fn shape() -> Shape {
    let max_def = sx::param(1);
    Shape { n: sx::param(0), optional: max_def > 0, max_def, max_rep: sx::param(4), version: sx::param(2), dict: sx::param(3).checked_sub(1) }
}
impl Shape {
    fn rep(&self) -> Repetition {
        if self.optional { Repetition::Optional } else { Repetition::Required }
    }
    fn page(&self, t: PhysicalType, e: Encoding, values: impl Fn(usize) -> Vec<u8>) -> (DataPage, Vec<bool>) {
        make(t, self.rep(), self.max_def, self.max_rep, self.version, self.n, e, values)
    }
}

#[inline(always)]
fn native<T: NativeType>() {
    let s = shape();
    let size = std::mem::size_of::<T>();
    let all = raws(s.n, size);
    let (idx, want) = indices(s.n, s.dict.unwrap_or(1));
    let dict: Vec<u8> = vec![3, 1, 2];
    let e = match s.dict { None => Encoding::Plain, Some(w) if w % 2 == 0 => Encoding::RleDictionary, _ => Encoding::PlainDictionary };
    let (p, present) = s.page(T::TYPE, e, |c| if s.dict.is_some() { idx.clone() } else { all[..c].concat() });
    let c = present.iter().filter(|x| **x).count();
    let passed = if s.dict.is_some() { Some(dict.clone()) } else { None };
    match NativePageState::<T, Vec<u8>>::try_new(&p, passed) {
        Ok(NativePageState::Required(v)) => {
            sx::check(!s.optional && s.dict.is_none(), "required plain");
            items(v.map(|x| x.to_le_bytes()), &all[..c]);
            sx::reach("required");
        }
        Ok(NativePageState::Optional(l, v)) => {
            sx::check(s.optional && s.dict.is_none(), "optional plain");
            validity(l, &present);
            items(v.map(|x| x.to_le_bytes()), &all[..c]);
            sx::reach("optional");
        }
        Ok(NativePageState::RequiredDictionary(d)) => {
            sx::check(!s.optional && s.dict.is_some(), "required dictionary");
            sx::check(d.len() == s.n && d.is_empty() == (s.n == 0), "number of indices");
            coded(d.indexes, &d.dict, &dict, &want[..c]);
            sx::reach("required dictionary");
        }
        Ok(NativePageState::OptionalDictionary(l, d)) => {
            sx::check(s.optional && s.dict.is_some(), "optional dictionary");
            validity(l, &present);
            coded(d.indexes, &d.dict, &dict, &want[..c]);
            sx::reach("optional dictionary");
        }
        Err(_) => sx::check(false, "a supported page"),
    }
}

const ENCODINGS: [Encoding; 9] = [
    Encoding::Plain, Encoding::PlainDictionary, Encoding::Rle, Encoding::BitPacked, Encoding::DeltaBinaryPacked,
    Encoding::DeltaLengthByteArray, Encoding::DeltaByteArray, Encoding::RleDictionary, Encoding::ByteStreamSplit,
];

harnesses! {
    fn h_i32() { native::<i32>() }
    fn h_i64() { native::<i64>() }
    fn h_int96() { native::<[u32; 3]>() }
    fn h_f32() { native::<f32>() }
    fn h_f64() { native::<f64>() }
    fn h_binary() {
        let s = shape();
        let all: Vec<Vec<u8>> = (0..s.n).map(|i| sx::bytes(i % 3)).collect();
        let (idx, want) = indices(s.n, s.dict.unwrap_or(1));
        let dict: Vec<u8> = vec![3, 1, 2];
        let e = match s.dict { None => Encoding::Plain, Some(w) if w % 2 == 0 => Encoding::RleDictionary, _ => Encoding::PlainDictionary };
        let (p, present) = s.page(PhysicalType::ByteArray, e, |c| if s.dict.is_some() { idx.clone() } else {
            let mut b = vec![];
            for x in &all[..c] { b.extend_from_slice(&(x.len() as u32).to_le_bytes()); b.extend_from_slice(x); }
            b
        });
        let c = present.iter().filter(|x| **x).count();
        match BinaryPageState::try_new(&p, if s.dict.is_some() { Some(dict.clone()) } else { None }) {
            Ok(BinaryPageState::Required(v)) => { sx::check(!s.optional && s.dict.is_none(), "required plain"); items(v.map(|x| x.unwrap()), &all[..c]); sx::reach("required"); }
            Ok(BinaryPageState::Optional(l, v)) => { sx::check(s.optional && s.dict.is_none(), "optional plain"); validity(l, &present); items(v.map(|x| x.unwrap()), &all[..c]); sx::reach("optional"); }
            Ok(BinaryPageState::RequiredDictionary(d)) => { sx::check(!s.optional && s.dict.is_some(), "required dictionary"); sx::check(d.len() == s.n, "number of indices"); coded(d.indexes, &d.dict, &dict, &want[..c]); sx::reach("required dictionary"); }
            Ok(BinaryPageState::OptionalDictionary(l, d)) => { sx::check(s.optional && s.dict.is_some(), "optional dictionary"); validity(l, &present); coded(d.indexes, &d.dict, &dict, &want[..c]); sx::reach("optional dictionary"); }
            Err(_) => sx::check(false, "a supported page"),
        }
    }
    fn h_fixed() {
        let s = shape();
        let size = sx::param(5);
        let all = raws(s.n, size);
        let (idx, want) = indices(s.n, s.dict.unwrap_or(1));
        let dict: Vec<u8> = vec![3, 1, 2];
        let e = match s.dict { None => Encoding::Plain, Some(w) if w % 2 == 0 => Encoding::RleDictionary, _ => Encoding::PlainDictionary };
        let (p, present) = s.page(PhysicalType::FixedLenByteArray(size), e, |c| if s.dict.is_some() { idx.clone() } else { all[..c].concat() });
        let c = present.iter().filter(|x| **x).count();
        match FixedLenBinaryPageState::try_new(&p, if s.dict.is_some() { Some(dict.clone()) } else { None }) {
            Ok(FixedLenBinaryPageState::Required(v)) => { sx::check(!s.optional && s.dict.is_none(), "required plain"); items(v, &all[..c]); sx::reach("required"); }
            Ok(FixedLenBinaryPageState::Optional(l, v)) => { sx::check(s.optional && s.dict.is_none(), "optional plain"); validity(l, &present); items(v, &all[..c]); sx::reach("optional"); }
            Ok(FixedLenBinaryPageState::RequiredDictionary(d)) => { sx::check(!s.optional && s.dict.is_some(), "required dictionary"); sx::check(d.len() == s.n, "number of indices"); coded(d.indexes, &d.dict, &dict, &want[..c]); sx::reach("required dictionary"); }
            Ok(FixedLenBinaryPageState::OptionalDictionary(l, d)) => { sx::check(s.optional && s.dict.is_some(), "optional dictionary"); validity(l, &present); coded(d.indexes, &d.dict, &dict, &want[..c]); sx::reach("optional dictionary"); }
            Err(_) => sx::check(false, "a supported page"),
        }
    }
    fn h_boolean() {
        let s = shape();
        let bits = sx::bytes(ceil8(s.n));
        let (p, present) = s.page(PhysicalType::Boolean, Encoding::Plain, |c| bits[..ceil8(c)].to_vec());
        let c = present.iter().filter(|x| **x).count();
        match BooleanPageState::try_new(&p) {
            Ok(BooleanPageState::Required(v, n)) => {
                sx::check(!s.optional && n == s.n && v.len() == ceil8(n), "required plain");
                for i in 0..v.len() { sx::check(v[i] == bits[i], "stored bits"); }
                sx::reach("required");
            }
            Ok(BooleanPageState::Optional(l, v)) => {
                sx::check(s.optional, "optional plain");
                validity(l, &present);
                let mut i = 0;
                for x in v.take(c) { sx::check(x == (bits[i / 8] >> (i % 8) & 1 == 1), "stored bit"); i += 1; }
                sx::check(i == c, "every stored bit");
                sx::reach("optional");
            }
            Err(_) => sx::check(false, "a supported page"),
        }
    }
    // which combinations are decoded as what
    fn h_dispatch() {
        let e = ENCODINGS[sx::choose(9)];
        let optional = sx::flag();
        let with_dict = sx::flag();
        let version = 1 + sx::choose(2);
        let rep = if optional { Repetition::Optional } else { Repetition::Required };
        let max = optional as i16;
        // a body that is a well-formed one of all kinds
        let def = [2u8, 1];
        let body = [1u8, 0, 0, 0];
        let body = if matches!(e, Encoding::PlainDictionary | Encoding::RleDictionary) { &[1u8, 2, 1, 0][..] } else { &body[..] };
        let def: &[u8] = if optional { &def } else { &[] };
        let of = |t| page(version, 1, e, descriptor(t, rep, max, 0), &[], def, body);
        let is_dict = matches!(e, Encoding::PlainDictionary | Encoding::RleDictionary);
        // 0 plain, 1 dictionary, 2 refused
        let want = if e == Encoding::Plain { 0 } else if is_dict && with_dict { 1 } else { 2 };
        let d = if with_dict { Some(()) } else { None };
        let kind = |k: Result<(bool, bool), Error>| match k { Ok((dict, opt)) => { sx::check(opt == optional, "nullability"); dict as usize } Err(_) => 2 };
        sx::check(kind(NativePageState::<i32, ()>::try_new(&of(PhysicalType::Int32), d).map(|x| match x {
            NativePageState::Required(_) => (false, false), NativePageState::Optional(..) => (false, true),
            NativePageState::RequiredDictionary(_) => (true, false), NativePageState::OptionalDictionary(..) => (true, true) })) == want, "native");
        sx::check(kind(BinaryPageState::<()>::try_new(&of(PhysicalType::ByteArray), d).map(|x| match x {
            BinaryPageState::Required(_) => (false, false), BinaryPageState::Optional(..) => (false, true),
            BinaryPageState::RequiredDictionary(_) => (true, false), BinaryPageState::OptionalDictionary(..) => (true, true) })) == want, "binary");
        sx::check(kind(FixedLenBinaryPageState::<()>::try_new(&of(PhysicalType::FixedLenByteArray(2)), d).map(|x| match x {
            FixedLenBinaryPageState::Required(_) => (false, false), FixedLenBinaryPageState::Optional(..) => (false, true),
            FixedLenBinaryPageState::RequiredDictionary(_) => (true, false), FixedLenBinaryPageState::OptionalDictionary(..) => (true, true) })) == want, "fixed");
        sx::check(kind(BooleanPageState::try_new(&of(PhysicalType::Boolean)).map(|x| match x {
            BooleanPageState::Required(..) => (false, false), BooleanPageState::Optional(..) => (false, true) })) == if e == Encoding::Plain { 0 } else { 2 }, "boolean");
        // not a fixed-length type
        sx::check(FixedLenBinaryPageState::<()>::try_new(&of(PhysicalType::ByteArray), d).is_err(), "not fixed-length");
        sx::reach("dispatch");
    }
    // any bytes as a dictionary-coded or plain page of any number of values: what is decoded is inside the page
    fn h_any() {
        let (n, version) = (sx::param(0), sx::param(1));
        let b = sx::bytes(n);
        let k = [0, 1, 4][sx::choose(3)];
        let which = sx::choose(4);
        let d = descriptor(PhysicalType::FixedLenByteArray(3), Repetition::Optional, 1, 0);
        let e = if sx::flag() { Encoding::Plain } else { Encoding::RleDictionary };
        let mut b = b;
        let h = if version == 1 { header_v1(k as i32, e) } else {
            let (r, d) = (sx::choose(3), sx::choose(n + 2));
            if r + d < n && e != Encoding::Plain { b[r + d] = [0, 1, 3, 9, 32, 33, 255][sx::choose(7)]; }
            header_v2(k as i32, k as i32, e, r as i32, d as i32)
        };
        let p = DataPage::new(h, b, d, None);
        fn of(l: DefLevelsDecoder, k: usize) {
            let mut c = 0;
            if let DefLevelsDecoder::Bitmap(it) = l { for x in HybridRleBooleanIter::new(it) { if x.is_err() { break; } c += 1; } }
            sx::check(c <= k, "no more levels than values");
        }
        if which == 0 { if let Ok(s) = BinaryPageState::try_new(&p, Some(())) {
            match s {
                BinaryPageState::Optional(l, v) => { of(l, k); let mut c = 0; for x in v { if x.is_err() { break; } c += 1; } sx::check(4 * c <= n, "inside the page"); sx::reach("binary"); }
                BinaryPageState::OptionalDictionary(l, d) => { of(l, k); let mut c = 0; for x in d.indexes { if x.is_err() { break; } c += 1; } sx::check(c <= k, "no more indices than values"); sx::reach("dictionary"); }
                _ => sx::check(false, "optional"),
            }
        } }
        if which == 1 { if let Ok(s) = FixedLenBinaryPageState::try_new(&p, Some(())) {
            match s {
                FixedLenBinaryPageState::Optional(l, v) => { of(l, k); sx::check(3 * v.count() <= n, "inside the page (fixed)"); sx::reach("fixed"); }
                FixedLenBinaryPageState::OptionalDictionary(l, d) => { of(l, k); sx::check(d.len() <= k, "no more indices than values"); }
                _ => sx::check(false, "optional"),
            }
        } }
        if which == 2 { if let Ok(NativePageState::Optional(l, v)) = NativePageState::<i32, ()>::try_new(&p, None) { of(l, k); sx::check(4 * v.count() <= n, "inside the page (native)"); sx::reach("native"); } }
        if which == 3 { if let Ok(BooleanPageState::Optional(l, v)) = BooleanPageState::try_new(&p) { of(l, k); sx::check(v.count() <= 8 * n, "inside the page (boolean)"); } }
        sx::reach("any");
    }
}
