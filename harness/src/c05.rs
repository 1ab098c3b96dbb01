use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::delta_bitpacked::{encode, Decoder};

#[inline(always)]
fn decode_and_check(v: &[i64], enc: &[u8], trailing: usize) {
    let n = v.len();
    let mut all = enc.to_vec();
    for _ in 0..trailing { all.push(sx::u8()); }
    let mut d = Decoder::try_new(&all).unwrap();
    for i in 0..n {
        sx::check(d.size_hint() == (n - i, Some(n - i)), "remaining count");
        match d.next() {
            Some(Ok(x)) => sx::check(x == v[i], "value i"),
            _ => sx::check(false, "ends early or error"),
        }
    }
    sx::check(d.next().is_none(), "ends after the values");
    sx::check(d.size_hint() == (0, Some(0)), "nothing remaining");
    sx::check(d.consumed_bytes() == enc.len(), "consumed exactly what was written");
    for i in 0..enc.len().min(30) { sx::observe(enc[i] as u64); }
    sx::observe(enc.len() as u64);
}

const MINS: [i64; 10] = [0, -1, 5, i64::MIN, -(1 << 20), 1 << 12, -64, i64::MIN + 3, 63, -(1 << 45)];

harnesses! {
    // any n values
    fn h_short() {
        let (n, t) = (sx::param(0), sx::param(1));
        let mut v = vec![];
        for _ in 0..n { v.push(sx::i64()); }
        let mut out = vec![0x55u8, 0x66];
        encode(v.iter().copied(), &mut out);
        sx::check(out[0] == 0x55 && out[1] == 0x66, "appends");
        decode_and_check(&v, &out[2..], t);
        sx::reach("short");
    }
    // any two values whose zig-zag numbers (first value, difference) take a and b bytes on the wire
    // P: a, b, trailing
    fn h_pair() {
        let (a, b) = (sx::param(0), sx::param(1));
        let v = vec![sx::i64(), sx::i64()];
        let bytes = |z: u64, n: usize| {
            sx::assume(if n == 10 { true } else { z >> (7 * n) == 0 });
            sx::assume(n == 1 || z >> (7 * (n - 1)) != 0);
        };
        bytes(zz(v[0]), a);
        bytes(zz(v[1].wrapping_sub(v[0])), b);
        let mut out = vec![0x55u8, 0x66];
        encode(v.iter().copied(), &mut out);
        sx::check(out[0] == 0x55 && out[1] == 0x66, "appends");
        decode_and_check(&v, &out[2..], sx::param(2));
        sx::reach("pair");
    }
    // any number of blocks; the smallest difference of each block and the width of each mini-block are given,
    // everything else about the differences is free
    // P: n values, width selector, selector of the smallest differences, trailing
    fn h_blocks() {
        let (n, ws, ms) = (sx::param(0), sx::param(1), sx::param(2));
        let first = sx::u32() as u8 as i64 - 128;
        // zig-zag of `first` in one or two bytes
        sx::assume(first >= -64 && first < 64);
        let mut v = vec![first];
        let mut prev = first;
        for i in 0..n - 1 {
            let (block, at) = (i / 128, i % 128);
            let min = MINS[(ms + block) % MINS.len()];
            // (min + 2^w - 1 stays an i64, or it would be the smallest)
            let room = (i64::MAX as u64).wrapping_sub(min as u64);
            let w = ((ws + 13 * block) % 65).min(63 - room.leading_zeros() as usize + (room == !0) as usize);
            let d = if at == 0 { 0 } else if at == 1 { mask64(w) } else { val64(w) };
            prev = prev.wrapping_add(min).wrapping_add(d as i64);
            v.push(prev);
        }
        let mut out = vec![];
        encode(v.iter().copied(), &mut out);
        decode_and_check(&v, &out, sx::param(3));
        sx::reach("blocks");
    }
    // k given values, then n values that are any numbers of the given bits (two's complement)
    // P: k, n, bits, trailing
    fn h_free() {
        let (k, n, bits) = (sx::param(0), sx::param(1), sx::param(2));
        let mut v = vec![];
        for i in 0..k { v.push((i as i64 * 3) % 7); }
        for _ in 0..n { v.push(((sx::u64() << (64 - bits)) as i64) >> (64 - bits)); }
        let mut out = vec![];
        encode(v.iter().copied(), &mut out);
        decode_and_check(&v, &out, sx::param(3));
        sx::reach("free");
    }
}
