use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::hybrid_rle::*;

harnesses! {
    // P: bit width, number of runs, longest run-length run
    fn h_expand() {
        let (w, k, m) = (sx::param(0), sx::param(1), sx::param(2));
        let (b, v, runs) = stream(w, k, m, sx::param(3) == 1);
        if runs.iter().any(|r| r.0) && runs.iter().any(|r| !r.0) { sx::reach("mixed"); }
        // any cut
        let n = v.len() - sx::choose(sx::param(4).min(v.len()).max(1));
        let mut d = HybridRleDecoder::try_new(&b, w as u32, n).unwrap();
        for i in 0..n {
            match d.next() {
                Some(Ok(x)) => sx::check(x == v[i], "value i of the expansion"),
                _ => sx::check(false, "ends early or error"),
            }
        }
        sx::check(d.next().is_none(), "ends at the requested count");
        sx::observe(n as u64);
        sx::observe(v[0] as u64);
        sx::observe(v[n - 1] as u64);
        sx::reach("end");
    }
    // the run-level iterator hands out every run with its bytes
    fn h_runs() {
        let (w, k, m) = (sx::param(0), sx::param(1), sx::param(2));
        let (b, _, runs) = stream(w, k, m, sx::param(3) == 1);
        let mut d = Decoder::new(&b, w);
        sx::check(d.num_bits() == w, "width");
        for r in runs.iter() {
            match d.next() {
                Some(Ok(HybridEncoded::Bitpacked(x))) => {
                    sx::check(r.0, "kind of run");
                    sx::check(x.as_ptr() == b[r.1..].as_ptr() && x.len() == r.2 - r.1, "bytes of the run");
                }
                Some(Ok(HybridEncoded::Rle(x, n))) => {
                    sx::check(!r.0, "kind of run");
                    sx::check(x.as_ptr() == b[r.1..].as_ptr() && x.len() == r.2 - r.1, "bytes of the run");
                    sx::check(n == r.3, "repetitions");
                }
                _ => sx::check(false, "missing run"),
            }
        }
        sx::check(d.next().is_none(), "no more runs");
        sx::reach("runs");
    }
    // a run-length run of any length whatsoever, cut at n values
    fn h_long_run() {
        let (w, n) = (sx::param(0), sx::param(1));
        let len = sx::u64();
        sx::assume(len >= n as u64 && len < 1 << 31);
        let x = val32(w);
        let mut b = vec![];
        let mut h = len << 1;
        // 5 bytes, not necessarily minimal
        for i in 0..5 { b.push((h as u8 & 0x7f) | if i < 4 { 0x80 } else { 0 }); h >>= 7; }
        for i in 0..ceil8(w) { b.push((x >> (8 * i)) as u8); }
        let mut d = HybridRleDecoder::try_new(&b, w as u32, n).unwrap();
        for _ in 0..n {
            match d.next() {
                Some(Ok(y)) => sx::check(y == x, "repeated value"),
                _ => sx::check(false, "ends early or error"),
            }
        }
        sx::check(d.next().is_none(), "ends at the requested count");
        if len == n as u64 { sx::reach("exact"); }
        if len > 1 << 30 { sx::reach("huge"); }
        sx::observe(x as u64);
    }
}
