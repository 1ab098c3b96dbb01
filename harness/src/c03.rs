use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::hybrid_rle::*;

harnesses! {
    fn h_rle_roundtrip() {
        let (w, n) = (sx::param(0), sx::param(1));
        let mut v = vec![];
        for _ in 0..n { v.push(val32(w)); }
        let mut out = vec![0xAAu8]; // appended after what the sink already holds
        encode_u32(&mut out, v.iter().copied(), w as u32).unwrap();
        sx::check(out[0] == 0xAA, "appends");
        let enc = &out[1..];
        // what the format says the bytes are: one bit-packed run
        let mut h = vec![];
        uleb(&mut h, ((ceil8(n) as u64) << 1) | 1);
        sx::check(enc.len() >= h.len() && eq_bytes(&enc[..h.len()], &h), "header of one bit-packed run");
        if w > 0 {
            for i in 0..n { sx::check(unpack_ref(&enc[h.len()..], i, w) == v[i] as u64, "packed value"); }
        }
        let mut d = HybridRleDecoder::try_new(enc, w as u32, n).unwrap();
        for i in 0..n {
            sx::check(d.size_hint() == (n - i, Some(n - i)), "remaining count");
            sx::check(d.len() == n - i, "len");
            match d.next() {
                Some(Ok(x)) => sx::check(x == v[i], "value i"),
                _ => sx::check(false, "ends early or error"),
            }
        }
        sx::check(d.next().is_none(), "ends after the values");
        sx::check(d.size_hint() == (0, Some(0)), "nothing remaining");
        for i in 0..enc.len().min(16) { sx::observe(enc[i] as u64); }
        sx::reach("rle");
    }
    fn h_bool_roundtrip() {
        let n = sx::param(0);
        let mut v = vec![];
        for _ in 0..n { v.push(sx::bool()); }
        let mut out = vec![];
        encode_bool(&mut out, v.iter().copied()).unwrap();
        let mut h = vec![];
        uleb(&mut h, ((ceil8(n) as u64) << 1) | 1);
        sx::check(eq_bytes(&out[..h.len()], &h), "header of one bit-packed run");
        sx::check(out.len() == h.len() + ceil8(n), "one bit per value");
        let mut d = HybridRleDecoder::try_new(&out, 1, n).unwrap();
        for i in 0..n {
            match d.next() {
                Some(Ok(x)) => sx::check(x == v[i] as u32, "bool i"),
                _ => sx::check(false, "ends early or error"),
            }
        }
        sx::check(d.next().is_none(), "ends after the values");
        // run-level decoding with the bitmap iterator
        if n > 0 {
            let mut runs = Decoder::new(&out, 1);
            match runs.next() {
                Some(Ok(HybridEncoded::Bitpacked(b))) => {
                    let mut it = BitmapIter::new(b, 0, n);
                    for i in 0..n { sx::check(it.next() == Some(v[i]), "bitmap bit i"); }
                    sx::check(it.next().is_none(), "bitmap ends");
                    sx::reach("bitmap");
                }
                _ => sx::check(false, "one bit-packed run"),
            }
            sx::check(runs.next().is_none(), "no more runs");
        }
        for i in 0..out.len().min(16) { sx::observe(out[i] as u64); }
    }
    // bitmaps read at any offset, and written without a header
    fn h_bitmap() {
        let (off, n) = (sx::param(0), sx::param(1));
        let b = sx::bytes(ceil8(off + n).max(1));
        let mut it = BitmapIter::new(&b, off, n);
        let mut out = vec![];
        bitpacked_encode(&mut out, BitmapIter::new(&b, off, n)).unwrap();
        sx::check(out.len() == ceil8(n), "one bit per value");
        for i in 0..n {
            let want = (b[(off + i) / 8] >> ((off + i) % 8)) & 1 == 1;
            sx::check(it.size_hint() == (n - i, Some(n - i)), "bits remaining");
            let got = it.next();
            sx::check(got == Some(want), "bit offset+i");
            sx::check(((out[i / 8] >> (i % 8)) & 1 == 1) == want, "written bit i");
        }
        sx::check(it.next().is_none(), "bitmap ends");
        if n % 8 != 0 { sx::check(out[n / 8] >> (n % 8) == 0, "padding is zero"); }
        sx::observe_bytes(&out);
    }
}
