use crate::util::*;
use crate::{harnesses, sx};
use parquet2::deserialize::{HybridEncoded as Runs, HybridRleBooleanIter, HybridRleIter};
use parquet2::encoding::hybrid_rle::{BitmapIter, Decoder, HybridEncoded, HybridRleDecoder};
use parquet2::encoding::plain_byte_array::BinaryIter;
use parquet2::encoding::{bitpacked, delta_bitpacked, delta_byte_array, delta_length_byte_array, uleb128, zigzag_leb128};

/// the number and its length when the bytes start with a terminated number that fits 64 bits
fn uleb_ref(b: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for i in 0..b.len() {
        if i == 10 {
            return None;
        }
        v |= ((b[i] & 0x7f) as u128) << (7 * i);
        if b[i] < 0x80 {
            return if v >> 64 == 0 { Some((v as u64, i + 1)) } else { None };
        }
    }
    None
}

/// an iterator that states exactly what is left: at most `declared` items, one less at every step, nothing after an error
#[inline(always)]
fn drain<T, E, I: Iterator<Item = Result<T, E>>>(it: &mut I, declared: usize, most: usize, len: impl Fn(&I) -> usize, mut item: impl FnMut(usize, T)) -> bool {
    let mut left = len(it);
    sx::check(left <= declared, "no more than declared");
    for i in 0..most {
        match it.next() {
            None => {
                sx::check(left == 0, "ends when nothing is left");
                sx::check(it.next().is_none(), "stays ended");
                sx::reach("ended");
                return true;
            }
            Some(Err(_)) => {
                sx::reach("error");
                return false;
            }
            Some(Ok(x)) => {
                sx::check(left > 0, "an item beyond the declared number");
                item(i, x);
                sx::check(len(it) == left - 1, "every item is counted");
                left -= 1;
            }
        }
    }
    sx::reach("many");
    false
}

fn bitpacked_any<T: bitpacked::Unpackable + Into<u64> + Copy>(n: usize, bits: usize) {
    let b = sx::bytes(n);
    let w = sx::usize();
    let length = sx::usize();
    match bitpacked::Decoder::<T>::try_new(&b, w, length) {
        Ok(it) => {
            sx::check(w >= 1 && w <= bits, "width");
            let w = sx::concrete(w);
            sx::check(length <= n * 8 / w, "no more than the bytes hold");
            let length = sx::concrete(length);
            let mut i = 0;
            for x in it {
                sx::check(i < length, "no more than declared");
                sx::check(x.into() == unpack_ref(&b, i, w), "value");
                i += 1;
            }
            sx::check(i == length, "as many as declared");
            sx::reach("unpacked");
        }
        Err(_) => {
            sx::check(w == 0 || w > bits || length > 8 * n / w.max(1), "only what cannot be unpacked is refused");
            sx::reach("refused");
        }
    }
}

/// u64 out of a few extreme ones
fn extreme(k: usize, list: &[u64]) -> u64 {
    list[k % list.len()]
}

fn delta_header(out: &mut Vec<u8>, bs: u64, mb: u64, n: u64) {
    uleb(out, bs);
    uleb(out, mb);
    uleb(out, n);
}

/// the three parts of a delta byte array stream
fn delta_length_any(b: &[u8], most: usize) {
    if let Ok(mut d) = delta_length_byte_array::Decoder::try_new(b) {
        let mut sum = 0usize;
        let mut ok = true;
        let mut ended = false;
        for _ in 0..most {
            match d.next() {
                Some(Ok(l)) => {
                    sx::check(l >= 0, "lengths are not negative");
                    sum += l as usize;
                }
                Some(Err(_)) => {
                    ok = false;
                    sx::reach("bad length");
                    break;
                }
                None => {
                    ended = true;
                    break;
                }
            }
        }
        if ok && ended {
            let v = d.values();
            sx::check(v.len() == sum && sum <= b.len(), "the values are as long as their lengths");
            sx::check(d.into_values().len() == sum, "the values are as long as their lengths (owned)");
            sx::reach("values");
        }
    } else {
        sx::reach("bad header");
    }
}

harnesses! {
    fn h_uleb() {
        let n = sx::param(0);
        let b = sx::bytes(n);
        let r = uleb_ref(&b);
        match uleb128::decode(&b) {
            Ok((v, c)) => { sx::check(r == Some((v, c)), "the number the bytes stand for"); sx::reach("number"); }
            Err(_) => { sx::check(r.is_none(), "only what is no number is refused"); sx::reach("refused"); }
        }
        match zigzag_leb128::decode(&b) {
            Ok((v, c)) => sx::check(matches!(r, Some((z, k)) if c == k && unzz(z) == v), "the signed number the bytes stand for"),
            Err(_) => sx::check(r.is_none(), "only what is no number is refused (zigzag)"),
        }
    }
    // P: bytes, width
    fn h_runs() {
        let (n, w) = (sx::param(0), sx::param(1));
        let b = sx::bytes(n);
        let mut d = Decoder::new(&b, w);
        let mut used = 0;
        for _ in 0..n + 1 {
            match d.next() {
                None => { sx::check(d.next().is_none(), "stays ended"); sx::reach("ended"); return; }
                Some(Err(_)) => { sx::check(d.next().is_none(), "nothing after an error"); sx::reach("error"); return; }
                Some(Ok(HybridEncoded::Bitpacked(p))) => { used += 1 + p.len(); sx::check(used <= n, "bit-packed run inside the data"); }
                Some(Ok(HybridEncoded::Rle(v, _))) => { used += 1 + v.len(); sx::check(v.len() == ceil8(w), "run value width"); sx::check(used <= n, "run inside the data"); }
            }
        }
        sx::check(false, "more runs than bytes");
    }
    // P: bytes, width, values
    fn h_values() {
        let (n, w, k) = (sx::param(0), sx::param(1), sx::param(2));
        let b = sx::bytes(n);
        match HybridRleDecoder::try_new(&b, w as u32, k) {
            Ok(mut d) => {
                let x = drain(&mut d, k, k.min(24) + 1, |d| d.size_hint().0, |_, v| { if w < 32 { sx::observe(v as u64); } });
                if x { sx::reach("all values"); }
            }
            Err(_) => sx::reach("refused"),
        }
    }
    fn h_levels() {
        let (n, k) = (sx::param(0), sx::param(1));
        let b = sx::bytes(n);
        let mut it = HybridRleIter::new(Decoder::new(&b, 1), k);
        let mut got = 0usize;
        let mut steps = 0;
        loop {
            match it.next() {
                None => { sx::check(got <= k, "no more than declared"); sx::reach("levels"); break; }
                Some(Err(_)) => { sx::reach("bad levels"); break; }
                Some(Ok(r)) => {
                    if let Runs::Bitmap(b, l) = r { sx::check(l <= b.len() * 8, "a bitmap holds its bits"); }
                    got += r.len();
                    sx::check(it.len() == k - got, "every position is counted");
                }
            }
            steps += 1;
            sx::check(steps <= n, "more runs than bytes");
        }
        let mut it = HybridRleBooleanIter::new(HybridRleIter::new(Decoder::new(&b, 1), k));
        let mut all = 0;
        for x in &mut it {
            if x.is_err() { sx::reach("bad booleans"); break; }
            all += 1;
            sx::check(all <= k, "no more booleans than declared");
        }
        sx::check(all <= got, "as many booleans as run positions");
    }
    fn h_bitpacked_u8() { bitpacked_any::<u8>(sx::param(0), 8) }
    fn h_bitpacked_u16() { bitpacked_any::<u16>(sx::param(0), 16) }
    fn h_bitpacked_u32() { bitpacked_any::<u32>(sx::param(0), 32) }
    fn h_bitpacked_u64() { bitpacked_any::<u64>(sx::param(0), 64) }
    // bitmap of any length over any slice
    fn h_bitmap() {
        let n = sx::param(0);
        let b = sx::bytes(n);
        let (o, l) = (sx::choose(8 * n + 1), sx::choose(8 * n + 1));
        sx::assume(o + l <= 8 * n);
        let mut i = 0;
        for x in BitmapIter::new(&b, o, l) { sx::check(i < l && x == (b[(o + i) / 8] >> ((o + i) % 8) & 1 == 1), "bit"); i += 1; }
        sx::check(i == l, "as many bits as asked for");
        sx::reach("bitmap");
    }
    // P: any n bytes
    fn h_delta() {
        let n = sx::param(0);
        let b = sx::bytes(n);
        match delta_bitpacked::Decoder::try_new(&b) {
            Ok(mut d) => {
                let declared = d.size_hint().0;
                drain(&mut d, declared, 12, |d| { sx::check(d.consumed_bytes() <= n, "consumed inside the data"); d.size_hint().0 }, |_, v| sx::observe(v as u64));
            }
            Err(_) => sx::reach("refused"),
        }
    }
    // P: block size, mini blocks, count (indices of extreme numbers), bytes that follow
    fn h_delta_extreme() {
        let bs = extreme(sx::param(0), &[0, 128, 256, 1 << 20, 1 << 62, !127]);
        let mb = extreme(sx::param(1), &[0, 1, 2, 4, 16, 1 << 40, 1 << 62, !0]);
        let k = extreme(sx::param(2), &[0, 1, 2, 6, 1 << 33, !0]);
        let mut b = vec![];
        delta_header(&mut b, bs, mb, k);
        let n = sx::param(3);
        b.extend_from_slice(&sx::bytes(n));
        match delta_bitpacked::Decoder::try_new(&b) {
            Ok(mut d) => {
                sx::check(d.size_hint().0 as u64 == k, "count");
                let len = b.len();
                drain(&mut d, k as usize, 12, |d| { sx::check(d.consumed_bytes() <= len, "consumed inside the data"); d.size_hint().0 }, |_, _| ());
            }
            Err(_) => sx::reach("refused"),
        }
        delta_length_any(&b, 12);
    }
    fn h_delta_length() {
        let (mb, k, n) = (sx::param(0), sx::param(1), sx::param(2));
        let mut b = vec![];
        delta_header(&mut b, 128, mb as u64, k as u64);
        b.extend_from_slice(&sx::bytes(n));
        delta_length_any(&b, k + 1);
    }
    fn h_delta_byte_array() {
        let (k, n) = (sx::param(0), sx::param(1));
        let mut b = vec![];
        delta_header(&mut b, 128, 1, k as u64);
        b.extend_from_slice(&sx::bytes(n));
        if let Ok(mut d) = delta_byte_array::Decoder::try_new(&b) {
            for i in 0..k + 1 {
                match d.next() {
                    Some(Ok(_)) => sx::check(i < k, "no more prefixes than declared"),
                    Some(Err(_)) => { sx::reach("bad prefix"); return; }
                    None => { sx::check(i == k, "as many prefixes as declared"); break; }
                }
            }
            match d.into_lengths() {
                Ok(mut l) => {
                    for _ in 0..12 {
                        match l.next() {
                            Some(Ok(x)) => sx::check(x >= 0, "lengths are not negative"),
                            Some(Err(_)) => { sx::reach("bad suffix"); return; }
                            None => { sx::check(l.values().len() <= b.len(), "suffixes inside the data"); sx::reach("suffixes"); return; }
                        }
                    }
                }
                Err(_) => sx::reach("no lengths"),
            }
        } else {
            sx::reach("no prefixes");
        }
    }
    // P: bytes, declared (n + 1 for none)
    fn h_binary() {
        let (n, k) = (sx::param(0), sx::param(1));
        let b = sx::bytes(n);
        let declared = if k > n { None } else { Some(k) };
        let mut it = BinaryIter::new(&b, declared);
        let mut at = 0;
        let mut i = 0;
        loop {
            match it.next() {
                None => { sx::check(at == n || declared == Some(i), "everything is delivered"); sx::reach("ended"); break; }
                Some(Err(_)) => { sx::check(it.next().is_none(), "nothing after an error"); sx::reach("error"); break; }
                Some(Ok(x)) => {
                    sx::check(declared.map_or(true, |k| i < k), "no more than declared");
                    at += 4 + x.len();
                    sx::check(at <= n, "inside the data");
                    i += 1;
                }
            }
        }
    }
}
