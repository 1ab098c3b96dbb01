use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::delta_bitpacked::Decoder;

harnesses! {
    // P: block size, mini-blocks, count, width selector, bytes of the zig-zag numbers, trailing
    fn h_conformant() {
        let (bs, m, n, ws, zl, t) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4), sx::param(5));
        let per = bs / m;
        let mut b = vec![];
        uleb(&mut b, bs as u64);
        uleb(&mut b, m as u64);
        uleb(&mut b, n as u64);
        // the zig-zag numbers as they stand on the wire: any
        let z = val64((7 * zl).min(64));
        uleb_fixed(&mut b, z, zl);
        let first = unzz(z);
        let mut v = vec![];
        if n > 0 { v.push(first); }
        let mut prev = first;
        let mut left = n.saturating_sub(1);
        let mut k = 0;
        while left > 0 {
            let z = val64((7 * zl).min(64));
            uleb_fixed(&mut b, z, zl);
            let min = unzz(z);
            let widths: Vec<usize> = (0..m).map(|i| (ws + 13 * (k + i)) % 65).collect();
            let here = left.min(bs);
            let used = (here + per - 1) / per;
            for i in 0..m {
                // the width of a mini-block that is not there can be anything
                if i < used { b.push(widths[i] as u8) } else { b.push(sx::u8()) }
            }
            for i in 0..used {
                let w = widths[i];
                let p = sx::bytes(per * w / 8);
                for j in 0..per {
                    if left == 0 { break; }
                    let d = if w == 0 { 0 } else { unpack_ref(&p, j, w) };
                    prev = prev.wrapping_add(min).wrapping_add(d as i64);
                    v.push(prev);
                    left -= 1;
                }
                b.extend_from_slice(&p);
            }
            k += m;
        }
        let len = b.len();
        for _ in 0..t { b.push(sx::u8()); }
        let mut d = Decoder::try_new(&b).unwrap();
        for i in 0..n {
            sx::check(d.size_hint().0 == n - i, "remaining count");
            match d.next() {
                Some(Ok(x)) => sx::check(x == v[i], "value i is the running sum"),
                _ => sx::check(false, "ends early or error"),
            }
        }
        sx::check(d.next().is_none(), "ends after the values");
        sx::check(d.consumed_bytes() == len, "consumed length is the encoded length");
        if n > 0 { sx::observe(v[n - 1] as u64); }
        sx::reach("conformant");
    }
}
