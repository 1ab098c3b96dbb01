use crate::util::*;
use crate::{harnesses, sx};
use parquet2::deserialize::*;
use parquet2::encoding::plain_byte_array::BinaryIter;
use parquet2::encoding::Encoding;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition;
use parquet2::types::{decode, NativeType};

/// n values given as little-endian byte patterns: the type's bytes are those bytes, and decoding gives the values back
#[inline(always)]
fn native<T: NativeType>(raw: Vec<Vec<u8>>, make: impl Fn(&[u8]) -> T, version: usize) {
    let n = raw.len();
    let mut body = vec![];
    for r in &raw {
        let v = make(r);
        let b = v.to_le_bytes();
        sx::check(eq_bytes(b.as_ref(), r), "little-endian bytes");
        sx::check(eq_bytes(decode::<T>(r).to_le_bytes().as_ref(), r), "decode of the bytes");
        body.extend_from_slice(b.as_ref());
    }
    let p = page(version, n, Encoding::Plain, descriptor(T::TYPE, Repetition::Required, 0, 0), &[], &[], &body);
    match NativePageState::<T, ()>::try_new(&p, None) {
        Ok(NativePageState::Required(values)) => {
            let mut i = 0;
            sx::check(values.size_hint() == (n, Some(n)), "count");
            for x in values {
                sx::check(i < n, "no more values than encoded");
                sx::check(eq_bytes(x.to_le_bytes().as_ref(), &raw[i]), "bit-for-bit the value");
                i += 1;
            }
            sx::check(i == n, "all values");
        }
        _ => sx::check(false, "plain required page"),
    }
    // a value that is cut short is an error
    if n > 0 {
        body.pop();
        let p = page(version, n, Encoding::Plain, descriptor(T::TYPE, Repetition::Required, 0, 0), &[], &[], &body);
        sx::check(NativePageState::<T, ()>::try_new(&p, None).is_err(), "cut short");
    }
    sx::observe_bytes(&body);
    sx::reach("native");
}

fn strings(k: usize, m: usize) -> Vec<Vec<u8>> {
    (0..k).map(|_| { let n = sx::choose(m + 1); sx::bytes(n) }).collect()
}
fn plain(s: &[Vec<u8>]) -> Vec<u8> {
    let mut b = vec![];
    for x in s {
        b.extend_from_slice(&(x.len() as u32).to_le_bytes());
        b.extend_from_slice(x);
    }
    b
}

harnesses! {
    fn h_i32() { let raw = (0..sx::param(0)).map(|_| sx::bytes(4)).collect(); native(raw, |b| i32::from_le_bytes([b[0], b[1], b[2], b[3]]), sx::param(1)); }
    fn h_i64() { let raw = (0..sx::param(0)).map(|_| sx::bytes(8)).collect(); native(raw, |b| i64::from_le_bytes(b.try_into().unwrap()), sx::param(1)); }
    fn h_f32() { let raw = (0..sx::param(0)).map(|_| sx::bytes(4)).collect(); native(raw, |b| f32::from_bits(u32::from_le_bytes(b.try_into().unwrap())), sx::param(1)); }
    fn h_f64() { let raw = (0..sx::param(0)).map(|_| sx::bytes(8)).collect(); native(raw, |b| f64::from_bits(u64::from_le_bytes(b.try_into().unwrap())), sx::param(1)); }
    fn h_int96() {
        let raw = (0..sx::param(0)).map(|_| sx::bytes(12)).collect();
        let w = |b: &[u8]| b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16 | (b[3] as u32) << 24;
        native(raw, |b| [w(&b[0..4]), w(&b[4..8]), w(&b[8..12])], sx::param(1));
    }
    // P: number of strings, longest, trailing bytes, version
    fn h_byte_array() {
        let (k, m, t, version) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3));
        let s = strings(k, m);
        let mut b = plain(&s);
        let len = b.len();
        for _ in 0..t { b.push(sx::u8()); }
        let mut it = BinaryIter::new(&b, Some(k));
        for i in 0..k {
            sx::check(it.size_hint() == (k - i, Some(k - i)), "remaining count");
            match it.next() {
                Some(Ok(x)) => sx::check(eq_bytes(x, &s[i]), "string i"),
                _ => sx::check(false, "ends early or error"),
            }
        }
        sx::check(it.next().is_none(), "ends after the declared number");
        let mut it = BinaryIter::new(&b[..len], None);
        for i in 0..k { sx::check(matches!(it.next(), Some(Ok(x)) if eq_bytes(x, &s[i])), "string i (no count)"); }
        sx::check(it.next().is_none(), "ends with the data");
        // as a page
        let p = page(version, k, Encoding::Plain, descriptor(PhysicalType::ByteArray, Repetition::Required, 0, 0), &[], &[], &b[..len]);
        match BinaryPageState::<()>::try_new(&p, None) {
            Ok(BinaryPageState::Required(values)) => {
                let mut i = 0;
                for x in values { sx::check(i < k && eq_bytes(x.unwrap(), &s[i]), "string i of the page"); i += 1; }
                sx::check(i == k, "all strings of the page");
            }
            _ => sx::check(false, "plain required page"),
        }
        sx::observe(len as u64);
        sx::reach("byte array");
    }
    // strings cut at any byte
    fn h_cut() {
        let (k, m) = (sx::param(0), sx::param(1));
        let s = strings(k, m);
        let b = plain(&s);
        let cut = sx::choose(b.len() + 1);
        let declared = if sx::flag() { Some(k) } else { None };
        let mut it = BinaryIter::new(&b[..cut], declared);
        let mut at = 0;
        for i in 0..k {
            if at == cut { break; }
            let end = at + 4 + s[i].len();
            match it.next() {
                Some(Ok(x)) => { sx::check(end <= cut, "not shortened"); sx::check(eq_bytes(x, &s[i]), "string i"); sx::reach("whole"); }
                Some(Err(_)) => { sx::check(end > cut, "whole strings are delivered"); sx::reach("cut"); at = cut; break; }
                None => sx::check(false, "a cut string is an error"),
            }
            at = end;
        }
        sx::check(at == cut, "everything looked at");
        sx::check(it.next().is_none(), "ends");
    }
    // any declared length
    fn h_length() {
        let n = sx::param(0);
        let l = sx::u32();
        let mut b = l.to_le_bytes().to_vec();
        let c = sx::bytes(n);
        b.extend_from_slice(&c);
        let mut it = BinaryIter::new(&b, Some(1));
        match it.next() {
            Some(Ok(x)) => { sx::check(l as usize <= n, "fits"); let l = sx::concrete(l as usize); sx::check(eq_bytes(x, &c[..l]), "the string"); sx::reach("fits"); }
            Some(Err(_)) => { sx::check(l as usize > n, "only a string beyond the data is an error"); sx::reach("too long"); }
            None => sx::check(false, "something is there"),
        }
    }
    // P: number of values, size
    fn h_fixed() {
        let (k, size, version) = (sx::param(0), sx::param(1), sx::param(2));
        let s: Vec<Vec<u8>> = (0..k).map(|_| sx::bytes(size)).collect();
        let b = s.concat();
        let check = |it: FixexBinaryIter| {
            let mut i = 0;
            sx::check(it.size_hint() == (k, Some(k)), "count");
            for x in it { sx::check(i < k && x.len() == size && eq_bytes(x, &s[i]), "value i"); i += 1; }
            sx::check(i == k, "all values");
        };
        check(FixexBinaryIter::new(&b, size));
        let p = page(version, k, Encoding::Plain, descriptor(PhysicalType::FixedLenByteArray(size), Repetition::Required, 0, 0), &[], &[], &b);
        match FixedLenBinaryPageState::<()>::try_new(&p, None) {
            Ok(FixedLenBinaryPageState::Required(values)) => check(values),
            _ => sx::check(false, "plain required page"),
        }
        // cut within an item
        if k > 0 && size > 1 {
            let cut = b.len() - 1 - sx::choose(size - 1);
            let p = page(version, k, Encoding::Plain, descriptor(PhysicalType::FixedLenByteArray(size), Repetition::Required, 0, 0), &[], &[], &b[..cut]);
            sx::check(FixedLenBinaryPageState::<()>::try_new(&p, None).is_err(), "cut short");
            let p = page(version, k, Encoding::Plain, descriptor(PhysicalType::FixedLenByteArray(size), Repetition::Optional, 1, 0), &[], &[2 * k as u8, 1], &b[..cut]);
            sx::check(FixedLenBinaryPageState::<()>::try_new(&p, None).is_err(), "cut short (optional)");
        }
        sx::observe_bytes(&b);
        sx::reach("fixed");
    }
    fn h_boolean() {
        let (n, version) = (sx::param(0), sx::param(1));
        let b = sx::bytes(ceil8(n));
        let p = page(version, n, Encoding::Plain, descriptor(PhysicalType::Boolean, Repetition::Required, 0, 0), &[], &[], &b);
        match BooleanPageState::try_new(&p) {
            Ok(BooleanPageState::Required(values, len)) => {
                sx::check(len == n, "count");
                let mut i = 0;
                for x in parquet2::encoding::hybrid_rle::BitmapIter::new(values, 0, len) { sx::check(x == (b[i / 8] >> (i % 8) & 1 == 1), "bit i"); i += 1; }
                sx::check(i == n, "all bits");
            }
            _ => sx::check(false, "plain required page"),
        }
        if n > 0 {
            let p = page(version, n, Encoding::Plain, descriptor(PhysicalType::Boolean, Repetition::Required, 0, 0), &[], &[], &b[..b.len() - 1]);
            sx::check(BooleanPageState::try_new(&p).is_err(), "cut short");
        }
        sx::reach("boolean");
    }
}
