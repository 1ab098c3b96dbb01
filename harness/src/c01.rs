use crate::{harnesses, sx};
use parquet2::encoding::*;

#[inline(always)]
fn layout(v: u64, b: &[u8]) {
    // the format's definition: 7-bit groups, least significant first, high bit = more follows; minimal
    let n = b.len();
    sx::check(n >= 1 && n <= 10, "between 1 and 10 bytes");
    let mut r = 0u64;
    for i in 0..n {
        r |= ((b[i] & 0x7f) as u64) << (7 * i);
        sx::check((b[i] >= 0x80) == (i + 1 < n), "continuation bit on all but the last byte");
    }
    sx::check(r == v, "7-bit groups, least significant first");
    sx::check(n == 1 || b[n - 1] != 0, "minimal length");
}

harnesses! {
    fn h_uleb_roundtrip() {
        let v = sx::u64();
        let mut buf = [0u8; 10];
        let n = uleb128::encode(v, &mut buf);
        layout(v, &buf[..n]);
        // arbitrary bytes follow
        let trailing = sx::param(0);
        let mut all = buf[..n].to_vec();
        for _ in 0..trailing { all.push(sx::u8()); }
        let (d, m) = uleb128::decode(&all).unwrap();
        sx::check(d == v, "decode(encode(v)) == v");
        sx::check(n == m, "consumed == written");
        sx::observe(n as u64);
        sx::observe(d);
        if n == 1 { sx::reach("u1"); }
        if n == 5 { sx::reach("u5"); }
        if n == 10 { sx::reach("u10"); }
    }
    fn h_zigzag_roundtrip() {
        let v = sx::i64();
        let (b, n) = zigzag_leb128::encode(v);
        layout(((v << 1) ^ (v >> 63)) as u64, &b[..n]);
        let trailing = sx::param(0);
        let mut all = b[..n].to_vec();
        for _ in 0..trailing { all.push(sx::u8()); }
        let (d, m) = zigzag_leb128::decode(&all).unwrap();
        sx::check(d == v, "zigzag decode(encode(v)) == v");
        sx::check(n == m, "zigzag consumed == written");
        sx::observe_bytes(&b[..n]);
        sx::observe(d as u64);
        if n == 1 { sx::reach("z1"); }
        if n == 10 { sx::reach("z10"); }
        if v == i64::MIN { sx::reach("zmin"); }
    }
    // encodings by other writers: any terminated sequence of groups, minimal or not
    fn h_uleb_decode_any() {
        let n = sx::param(0);
        let mut b = vec![];
        let mut r = 0u64;
        for i in 0..n {
            let mut x = sx::u8();
            if i + 1 < n { x |= 0x80 } else { x &= 0x7f }
            if i == 9 { sx::assume(x <= 1); }
            r |= ((x & 0x7f) as u64) << (7 * i);
            b.push(x);
        }
        b.push(sx::u8());
        let (d, m) = uleb128::decode(&b).unwrap();
        sx::check(d == r, "value of the groups");
        sx::check(m == n, "consumed up to the terminator");
        let (z, k) = zigzag_leb128::decode(&b).unwrap();
        sx::check(z == ((r >> 1) as i64) ^ -((r & 1) as i64), "zigzag mapping");
        sx::check(k == n, "zigzag consumed up to the terminator");
        sx::reach("any");
        sx::observe(d);
        sx::observe(z as u64);
    }
}
