use crate::util::*;
use crate::{harnesses, sx};
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{BitmapIter, Decoder};
use parquet2::encoding::Encoding;
use parquet2::schema::types::PhysicalType;
use parquet2::schema::Repetition;

/// the runs cover positions 0..k, present exactly where the level is 1
#[inline(always)]
fn runs<'a, I: HybridRleRunsIterator<'a>>(mut it: I, v: &[u32], k: usize) {
    let mut at = 0;
    loop {
        sx::check(it.number_of_elements() == k - at, "remaining positions");
        match it.next() {
            Some(Ok(HybridEncoded::Bitmap(b, n))) => {
                sx::check(n <= k - at && n <= b.len() * 8, "bitmap inside the page");
                for i in 0..n {
                    sx::check((b[i / 8] >> (i % 8) & 1 == 1) == (v[at + i] == 1), "presence (bitmap)");
                }
                at += n;
                sx::reach("bitmap");
            }
            Some(Ok(HybridEncoded::Repeated(set, n))) => {
                sx::check(n <= k - at, "run inside the page");
                for i in 0..n {
                    sx::check(set == (v[at + i] == 1), "presence (run)");
                }
                at += n;
                sx::reach("repeated");
            }
            Some(Err(_)) => sx::check(false, "well-formed levels"),
            None => break,
        }
    }
    sx::check(at == k, "all positions");
    sx::check(it.next().is_none(), "stays ended");
}

#[inline(always)]
fn booleans<'a, I: HybridRleRunsIterator<'a>>(it: I, v: &[u32], k: usize) {
    let mut it = HybridRleBooleanIter::new(it);
    for i in 0..k {
        sx::check(it.size_hint() == (k - i, Some(k - i)), "remaining booleans");
        match it.next() {
            Some(Ok(x)) => sx::check(x == (v[i] == 1), "presence"),
            _ => sx::check(false, "boolean missing"),
        }
    }
    sx::check(it.next().is_none(), "ends with the page");
}

/// each present position gets the next value
#[inline(always)]
fn aligned<V: Iterator<Item = Result<bool, parquet2::error::Error>>>(validity: V, v: &[u32], max: u32, k: usize) {
    let mut next = 0usize;
    let mut it = OptionalValues::new(validity, 0..k);
    for i in 0..k {
        sx::check(it.size_hint() == (k - i, Some(k - i)), "remaining values");
        match it.next() {
            Some(Ok(x)) => {
                if v[i] == max {
                    sx::check(x == Some(next), "the next value in order");
                    next += 1;
                } else {
                    sx::check(x.is_none(), "null");
                }
            }
            _ => sx::check(false, "value missing"),
        }
    }
    sx::check(it.next().is_none(), "ends with the page");
    sx::reach("aligned");
}

harnesses! {
    // the width of levels is the least that holds the maximum
    fn h_width() {
        let max = sx::i16();
        sx::assume(max >= 0);
        let w = parquet2::read::levels::get_bit_width(max);
        sx::check((w <= 15) & ((max as u32) >> w == 0), "levels fit");
        sx::check((w == 0) | ((max as u32) >> w.wrapping_sub(1).min(31) == 1), "least width");
        sx::reach("width");
    }
    // P: runs, longest run, truncated last group, how many positions may be cut
    fn h_runs() {
        let (r, m, t, c) = (sx::param(0), sx::param(1), sx::param(2) == 1, sx::param(3));
        let (b, v, _) = stream(1, r, m, t);
        let k = v.len() - sx::choose(c.min(v.len()).max(1));
        runs(HybridRleIter::new(Decoder::new(&b, 1), k), &v, k);
        booleans(HybridRleIter::new(Decoder::new(&b, 1), k), &v, k);
    }
    // levels of any maximum: the page's decoder
    // P: runs, longest run, max level, version, max repetition
    fn h_page() {
        let (r, m, max, version, rep) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
        let mut w = 0;
        while max >> w > 0 { w += 1; }
        let (b, v, _) = stream(w, r, m, false);
        let k = v.len() - sx::choose(3.min(v.len()));
        let values = [1u8, 2, 3];
        let p = page(version, k, Encoding::Plain, descriptor(PhysicalType::Int32, Repetition::Optional, max as i16, rep as i16), &[7, 7, 7, 7, 7][..5 * rep], &b, &values);
        match DefLevelsDecoder::try_new(&p) {
            Ok(DefLevelsDecoder::Bitmap(it)) => {
                sx::check(max == 1, "bitmaps are for a maximum of one");
                runs(it, &v, k);
                sx::reach("page bitmap");
            }
            Ok(DefLevelsDecoder::Levels(it, level)) => {
                sx::check(max != 1 && level == max as u32, "maximum level");
                let mut i = 0;
                sx::check(it.size_hint() == (k, Some(k)), "levels of the page");
                for x in it {
                    sx::check(i < k && x.unwrap() == v[i], "level i");
                    i += 1;
                }
                sx::check(i == k, "all levels");
                sx::reach("page levels");
            }
            Err(_) => sx::check(false, "well-formed page"),
        }
    }
    // P: runs, their kinds, longest run, most positions
    fn h_aligned() {
        let (r, kinds, m) = (sx::param(0), sx::param(1), sx::param(2));
        let mut b = vec![];
        let mut v: Vec<u32> = vec![];
        for i in 0..r {
            if kinds >> i & 1 == 0 {
                let n = 1 + sx::choose(m);
                let x = val32(1);
                uleb(&mut b, (n as u64) << 1);
                b.push(x as u8);
                for _ in 0..n { v.push(x); }
            } else {
                b.push(3);
                let x = sx::u8();
                b.push(x);
                for i in 0..8 { v.push((x >> i & 1) as u32); }
            }
        }
        let k = v.len().min(sx::param(3));
        let v = &v[..k];
        // decide every level so that presence is concrete
        let v: Vec<u32> = v.iter().map(|x| sx::concrete(*x as usize) as u32).collect();
        aligned(HybridRleBooleanIter::new(HybridRleIter::new(Decoder::new(&b, 1), k)), &v, 1, k);
    }
    // levels above one, as the consumers map them
    fn h_aligned_levels() {
        let (n, max) = (sx::param(0), sx::param(1));
        let w = if max > 3 { 3 } else { 2 };
        let mut b = vec![(((n + 7) / 8) << 1) as u8 | 1];
        let mut packed = sx::bytes((n + 7) / 8 * w);
        b.append(&mut packed);
        let v: Vec<u32> = (0..n).map(|i| unpack_ref(&b[1..], i, w) as u32).collect();
        for x in &v { sx::assume(*x <= max as u32); }
        let p = page(1, n, Encoding::Plain, descriptor(PhysicalType::Int32, Repetition::Optional, max as i16, 0), &[], &b, &[]);
        match DefLevelsDecoder::try_new(&p) {
            Ok(DefLevelsDecoder::Levels(it, level)) => aligned(it.map(|x| x.map(|x| x == level)), &v, max as u32, n),
            _ => sx::check(false, "levels"),
        }
    }
    // a validity that ends a run exactly at each position of a byte
    fn h_bitmap_tail() {
        let n = sx::param(0);
        let b = sx::bytes(ceil8(n));
        let it = OptionalValues::new(BitmapIter::new(&b, 0, n).map(Ok), 0..n);
        let mut next = 0;
        let mut i = 0;
        for x in it {
            let present = b[i / 8] >> (i % 8) & 1 == 1;
            if present { sx::check(matches!(x, Ok(Some(y)) if y == next), "value"); next += 1; } else { sx::check(matches!(x, Ok(None)), "null"); }
            i += 1;
        }
        sx::check(i == n, "all positions");
        sx::reach("tail");
    }
}
