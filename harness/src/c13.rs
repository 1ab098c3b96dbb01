use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::{get_length, Encoding};
use parquet2::page::{split_buffer, split_buffer_v1, split_buffer_v2, DataPage};
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition;

#[inline(always)]
fn le(b: &[u8]) -> usize {
    u32::from_le_bytes([b[0], b[1], b[2], b[3]]) as usize
}
/// the part is exactly bytes from..to of the body
#[inline(always)]
fn part(body: &[u8], p: &[u8], from: usize, len: usize) {
    sx::check(p.len() == len, "length of the part");
    sx::check(len == 0 || p.as_ptr() == body[from..].as_ptr(), "place of the part");
}
/// the format's definition: start and length of (rep, def, values), or none
fn v1_ref(b: &[u8], rep: bool, def: bool) -> Option<[(usize, usize); 3]> {
    let mut at = 0;
    let mut parts = [(0, 0); 3];
    for (k, has) in [rep, def].into_iter().enumerate() {
        if has {
            if b.len() - at < 4 {
                return None;
            }
            let l = le(&b[at..]);
            at += 4;
            if l > b.len() - at {
                return None;
            }
            let l = sx::concrete(l);
            parts[k] = (at, l);
            at += l;
        }
    }
    parts[2] = (at, b.len() - at);
    Some(parts)
}
#[inline(always)]
fn same(b: &[u8], got: Result<(&[u8], &[u8], &[u8]), parquet2::error::Error>, want: Option<[(usize, usize); 3]>) {
    match (got, want) {
        (Ok((r, d, v)), Some(p)) => {
            part(b, r, p[0].0, p[0].1);
            part(b, d, p[1].0, p[1].1);
            part(b, v, p[2].0, p[2].1);
            sx::reach("split");
        }
        (Err(_), None) => sx::reach("refused"),
        (Ok(_), None) => sx::check(false, "lengths beyond the body are refused"),
        (Err(_), Some(_)) => sx::check(false, "lengths that fit are accepted"),
    }
}

harnesses! {
    // P: bytes
    fn h_v1() {
        let n = sx::param(0);
        let b = sx::bytes(n);
        let (rep, def) = (sx::flag(), sx::flag());
        same(&b, split_buffer_v1(&b, rep, def), v1_ref(&b, rep, def));
        sx::observe(n as u64);
    }
    // P: bytes
    fn h_v2() {
        let n = sx::param(0);
        let b = sx::bytes(n);
        let (rep, def) = (sx::usize(), sx::usize());
        let fits = rep <= n && def <= n - rep;
        let want = if fits { let (r, d) = (sx::concrete(rep), sx::concrete(def)); Some([(0, r), (r, d), (r + d, n - r - d)]) } else { None };
        same(&b, split_buffer_v2(&b, rep, def), want);
        sx::observe(n as u64);
    }
    // as pages of any levels
    // P: bytes
    fn h_page() {
        let n = sx::param(0);
        let b = sx::bytes(n);
        let (max_rep, max_def) = (sx::i16(), sx::i16());
        sx::assume(max_rep >= 0 && max_def >= 0);
        let d = descriptor(PhysicalType::Int32, Repetition::Optional, max_def, max_rep);
        let encoding = Encoding::Plain;
        if sx::flag() {
            let p = DataPage::new(header_v1(3, encoding), b.clone(), d, None);
            same(p.buffer(), split_buffer(&p), v1_ref(p.buffer(), max_rep > 0, max_def > 0));
            sx::reach("v1");
        } else {
            let (rep, def) = (sx::i32(), sx::i32());
            let fits = rep >= 0 && def >= 0 && rep as usize <= n && def as usize <= n - rep as usize;
            let p = DataPage::new(header_v2(3, 3, encoding, rep, def), b.clone(), d, None);
            let want = if fits { let (r, d) = (sx::concrete(rep as usize), sx::concrete(def as usize)); Some([(0, r), (r, d), (r + d, n - r - d)]) } else { None };
            same(p.buffer(), split_buffer(&p), want);
            sx::reach("v2");
        }
        sx::observe(n as u64);
    }
    fn h_length() {
        let n = sx::param(0);
        let b = sx::bytes(n);
        match get_length(&b) {
            Some(l) => sx::check(n >= 4 && l == le(&b), "four little-endian bytes"),
            None => sx::check(n < 4, "only fewer than four bytes have no length"),
        }
        sx::reach("length");
    }
}
