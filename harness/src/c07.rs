use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::{delta_byte_array, delta_length_byte_array};

/// k byte strings, each of any length 0..=m, any contents
#[inline(always)]
fn strings(k: usize, m: usize) -> Vec<Vec<u8>> {
    (0..k).map(|_| { let n = sx::choose(m + 1); sx::bytes(n) }).collect()
}
#[inline(always)]
fn check_length_part(items: &[&[u8]], enc: &[u8]) {
    let mut d = delta_length_byte_array::Decoder::try_new(enc).unwrap();
    for i in 0..items.len() {
        match d.next() {
            Some(Ok(x)) => sx::check(x as usize == items[i].len(), "length i"),
            _ => sx::check(false, "lengths end early or error"),
        }
    }
    sx::check(d.next().is_none(), "lengths end");
    let all: Vec<u8> = items.concat();
    sx::check(eq_bytes(d.values(), &all), "concatenated bytes");
    sx::check(eq_bytes(d.into_values(), &all), "concatenated bytes (owned)");
}

harnesses! {
    fn h_delta_length() {
        let (k, m, t) = (sx::param(0), sx::param(1), sx::param(2));
        let s = strings(k, m);
        let mut out = vec![9u8];
        delta_length_byte_array::encode(s.iter().map(|x| x.as_slice()), &mut out);
        sx::check(out[0] == 9, "appends");
        let mut enc = out[1..].to_vec();
        for _ in 0..t { enc.push(sx::u8()); }
        let items: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
        check_length_part(&items, &enc);
        sx::observe_bytes(&out);
        sx::reach("dl");
    }
    fn h_delta_byte_array() {
        let (k, m, t) = (sx::param(0), sx::param(1), sx::param(2));
        let s = strings(k, m);
        let mut enc = vec![];
        delta_byte_array::encode(s.iter().map(|x| x.as_slice()), &mut enc);
        for _ in 0..t { enc.push(sx::u8()); }
        let mut d = delta_byte_array::Decoder::try_new(&enc).unwrap();
        let mut prefixes = vec![];
        for _ in 0..k {
            match d.next() {
                Some(Ok(x)) => prefixes.push(x as usize),
                _ => sx::check(false, "prefixes end early or error"),
            }
        }
        sx::check(d.next().is_none(), "prefixes end");
        let mut l = d.into_lengths().unwrap();
        let mut lengths = vec![];
        for _ in 0..k {
            match l.next() {
                Some(Ok(x)) => lengths.push(x as usize),
                _ => sx::check(false, "lengths end early or error"),
            }
        }
        sx::check(l.next().is_none(), "lengths end");
        let bytes = l.into_values();
        // put the strings back together
        let mut prev: Vec<u8> = vec![];
        let mut at = 0;
        for i in 0..k {
            let p = sx::concrete(prefixes[i]);
            let n = sx::concrete(lengths[i]);
            sx::check(p <= prev.len(), "prefix within the previous string");
            sx::check(at + n <= bytes.len(), "suffix within the bytes");
            let mut x = prev[..p].to_vec();
            x.extend_from_slice(&bytes[at..at + n]);
            at += n;
            sx::check(eq_bytes(&x, &s[i]), "string i");
            sx::observe(p as u64);
            prev = x;
        }
        sx::check(at == bytes.len(), "all bytes used");
        if k > 1 && s[0].len() > s[1].len() && s[1].len() > 0 && prefixes[1] == s[1].len() { sx::reach("prefix of predecessor"); }
        sx::reach("dba");
    }
    // many strings: across mini-block and block boundaries; one string of any length at a given position
    // P: n, position, max length
    fn h_many() {
        let (n, p, m) = (sx::param(0), sx::param(1), sx::param(2));
        let mut s: Vec<Vec<u8>> = vec![];
        for i in 0..n {
            if i == p || i == p + 1 { s.push(sx::bytes(sx::choose(m + 1))) } else { s.push(vec![7u8; i % 4]) }
        }
        let items: Vec<&[u8]> = s.iter().map(|x| x.as_slice()).collect();
        let mut enc = vec![];
        delta_length_byte_array::encode(items.iter(), &mut enc);
        check_length_part(&items, &enc);
        let mut enc = vec![];
        delta_byte_array::encode(items.iter().copied(), &mut enc);
        let mut d = delta_byte_array::Decoder::try_new(&enc).unwrap();
        let prefixes: Vec<usize> = d.by_ref().map(|x| sx::concrete(x.unwrap() as usize)).collect();
        sx::check(prefixes.len() == n, "number of prefixes");
        let mut l = d.into_lengths().unwrap();
        let lengths: Vec<usize> = l.by_ref().map(|x| sx::concrete(x.unwrap() as usize)).collect();
        sx::check(lengths.len() == n, "number of lengths");
        let bytes = l.into_values();
        let mut prev: Vec<u8> = vec![];
        let mut at = 0;
        for i in 0..n {
            let mut x = prev[..prefixes[i]].to_vec();
            x.extend_from_slice(&bytes[at..at + lengths[i]]);
            at += lengths[i];
            sx::check(eq_bytes(&x, &s[i]), "string i");
            prev = x;
        }
        sx::observe_bytes(&bytes[..bytes.len().min(40)]);
        sx::reach("many");
    }
}
