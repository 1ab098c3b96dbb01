use crate::util::*;
use crate::{harnesses, sx};
use parquet2::deserialize::*;
use parquet2::encoding::hybrid_rle::{BitmapIter, Decoder};
use parquet2::indexes::Interval;
use std::collections::VecDeque;

/// any `k` ordered disjoint intervals of 0..n (possibly touching, possibly empty)
fn intervals(n: usize, k: usize, empty: bool) -> Vec<Interval> {
    let mut at = 0;
    let mut out = vec![];
    for _ in 0..k {
        let start = at + sx::choose(n - at + 1);
        let least = if empty { 0 } else { 1 };
        if n - start < least {
            break;
        }
        let length = least + sx::choose(n - start + 1 - least);
        out.push(Interval::new(start, length));
        at = start + length;
    }
    out
}
fn positions(i: &[Interval]) -> Vec<usize> {
    let mut out = vec![];
    for x in i {
        for p in x.start..x.start + x.length {
            out.push(p);
        }
    }
    out
}

/// decode of the selected rows against the levels
#[inline(always)]
fn filtered(b: &[u8], v: &[u32], n: usize, sel: Vec<Interval>) {
    let want = positions(&sel);
    let rank: Vec<usize> = (0..n).map(|i| v[..i].iter().map(|x| *x as usize).sum()).collect();
    let mut it = FilteredHybridRleDecoderIter::new(HybridRleIter::new(Decoder::new(b, 1), n), sel.into_iter().collect::<VecDeque<_>>());
    let mut at = 0; // in want
    let mut value = 0usize; // values consumed so far
    let mut steps = 0;
    loop {
        sx::check(it.len() == want.len() - at, "remaining rows");
        let (bits, is_set, length): (Option<(&[u8], usize)>, bool, usize) = match it.next() {
            None => break,
            Some(Err(_)) => {
                sx::check(false, "well-formed levels");
                return;
            }
            Some(Ok(FilteredHybridEncoded::Skipped(s))) => {
                value += s;
                sx::reach("skipped");
                (None, false, 0)
            }
            Some(Ok(FilteredHybridEncoded::Repeated { is_set, length })) => {
                sx::reach("repeated");
                (None, is_set, length)
            }
            Some(Ok(FilteredHybridEncoded::Bitmap { values, offset, length })) => {
                sx::reach("bitmap");
                (Some((values, offset)), false, length)
            }
        };
        sx::check(length <= want.len() - at, "nothing outside the selection");
        for i in 0..length {
            let p = want[at + i];
            let present = match bits {
                Some((b, o)) => b[(o + i) / 8] >> ((o + i) % 8) & 1 == 1,
                None => is_set,
            };
            sx::check(present == (v[p] == 1), "presence of a selected row");
            // the consumer reads the next value when present
            sx::check(!present | (value == rank[p]), "the value of a selected row");
            value += present as usize;
        }
        at += length;
        steps += 1;
        sx::check(steps < 200, "ends");
    }
    sx::check(at == want.len(), "every selected row");
    sx::observe(value as u64);
    sx::reach("selected");
}

harnesses! {
    // P: runs, their kinds, longest run, intervals, empty ones too, most positions
    fn h_filtered() {
        let (r, kinds, m, k, e) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4) == 1);
        let mut b = vec![];
        let mut v: Vec<u32> = vec![];
        for i in 0..r {
            if kinds >> i & 1 == 0 {
                let n = 1 + sx::choose(m);
                let x = val32(1);
                uleb(&mut b, (n as u64) << 1);
                b.push(x as u8);
                for _ in 0..n { v.push(x); }
            } else {
                b.push(3);
                let x = sx::u8();
                b.push(x);
                for i in 0..8 { v.push((x >> i & 1) as u32); }
            }
        }
        let n = v.len().min(sx::param(5));
        let sel = intervals(n, k, e);
        filtered(&b, &v, n, sel);
    }
    // selecting from any iterator
    // P: items, intervals, empty ones too
    fn h_slice() {
        let (n, k, e) = (sx::param(0), sx::param(1), sx::param(2) == 1);
        let x = sx::bytes(n);
        let sel = intervals(n, k, e);
        let want = positions(&sel);
        let mut it = SliceFilteredIter::new(x.iter(), sel.into_iter().collect());
        for (i, p) in want.iter().enumerate() {
            sx::check(it.size_hint() == (want.len() - i, Some(want.len() - i)), "remaining rows");
            match it.next() {
                Some(y) => sx::check(*y == x[*p], "the selected item"),
                None => sx::check(false, "a selected item is missing"),
            }
        }
        sx::check(it.next().is_none(), "nothing outside the selection");
        sx::check(it.size_hint() == (0, Some(0)), "nothing remains");
        sx::reach("slice");
    }
    // selecting from optional values
    fn h_slice_optional() {
        let (n, k) = (sx::param(0), sx::param(1));
        let b = sx::bytes(ceil8(n));
        let x = sx::bytes(n);
        let sel = intervals(n, k, false);
        let want = positions(&sel);
        let mut full = vec![];
        let mut next = 0;
        for i in 0..n {
            if b[i / 8] >> (i % 8) & 1 == 1 { full.push(Some(x[next])); next += 1; } else { full.push(None); }
        }
        let mut it = SliceFilteredIter::new(OptionalValues::new(BitmapIter::new(&b, 0, n).map(Ok), x.iter()), sel.into_iter().collect());
        for p in want {
            match it.next() {
                Some(Ok(y)) => sx::check(y.copied() == full[p], "the selected row"),
                _ => sx::check(false, "a selected row is missing"),
            }
        }
        sx::check(it.next().is_none(), "nothing outside the selection");
        sx::reach("optional");
    }
}
