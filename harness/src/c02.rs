use crate::util::*;
use crate::{harnesses, sx};
use parquet2::encoding::bitpacked::{encode, encode_pack, Decoder, Unpackable};

trait W: Unpackable + PartialEq {
    const LEN: usize;
    fn any(w: usize) -> Self;
    fn get(self) -> u64;
}
macro_rules! w { ($($t:ty, $f:ident);*) => {$(impl W for $t {
    const LEN: usize = <$t>::BITS as usize;
    #[inline(always)] fn any(w: usize) -> Self { (sx::$f() as u64 & mask64(w)) as $t }
    #[inline(always)] fn get(self) -> u64 { self as u64 }
})*}}
w!(u8, u8; u16, u16; u32, u32; u64, u64);

// values -> packed bytes -> values
#[inline(always)]
fn roundtrip<T: W>() {
    let (w, n) = (sx::param(0), sx::param(1));
    let mut v: Vec<T> = vec![];
    for _ in 0..n { v.push(T::any(w)); }
    let packs = (n + T::LEN - 1) / T::LEN;
    let mut packed = vec![0u8; packs * T::LEN * w / 8];
    encode(&v, w, &mut packed);
    for i in 0..n {
        sx::check(unpack_ref(&packed, i, w) == v[i].get(), "bits i*w..(i+1)*w hold value i");
    }
    // only the bytes that hold values are needed to read them back
    let used = ceil8(n * w);
    let mut d = Decoder::<T>::try_new(&packed[..used], w, n).unwrap();
    for i in 0..n {
        let (lo, hi) = d.size_hint();
        sx::check(lo == n - i && hi == Some(n - i), "remaining count");
        match d.next() {
            Some(x) => sx::check(x == v[i], "value i"),
            None => sx::check(false, "ends early"),
        }
    }
    sx::check(d.next().is_none(), "ends after the values");
    sx::check(d.next().is_none(), "stays ended");
    for i in 0..used.min(24) { sx::observe(packed[i] as u64); }
}
// one (possibly incomplete) pack
#[inline(always)]
fn pack_one<T: W>() {
    let (w, n) = (sx::param(0), sx::param(1));
    let mut v: Vec<T> = vec![];
    for _ in 0..n { v.push(T::any(w)); }
    let mut packed = vec![0u8; T::LEN * w / 8];
    encode_pack(&v, w, &mut packed);
    for i in 0..T::LEN {
        let want = if i < n { v[i].get() } else { 0 };
        sx::check(unpack_ref(&packed, i, w) == want, "one pack: bits hold value i, rest is zero");
    }
    for i in 0..packed.len().min(24) { sx::observe(packed[i] as u64); }
}
// arbitrary packed bytes -> values
#[inline(always)]
fn unpack_any<T: W>() {
    let (w, n) = (sx::param(0), sx::param(1));
    let extra = sx::param(2);
    let b = sx::bytes(ceil8(n * w) + extra);
    let mut d = Decoder::<T>::try_new(&b, w, n).unwrap();
    for i in 0..n {
        match d.next() {
            Some(x) => {
                sx::check(x.get() == unpack_ref(&b, i, w), "value i is bits i*w..(i+1)*w");
                if i < 8 { sx::observe(x.get()); }
            }
            None => sx::check(false, "ends early"),
        }
    }
    sx::check(d.next().is_none(), "ends after the values");
}

harnesses! {
    fn h_roundtrip_u8() { roundtrip::<u8>() }
    fn h_roundtrip_u16() { roundtrip::<u16>() }
    fn h_roundtrip_u32() { roundtrip::<u32>() }
    fn h_roundtrip_u64() { roundtrip::<u64>() }
    fn h_pack_u8() { pack_one::<u8>() }
    fn h_pack_u16() { pack_one::<u16>() }
    fn h_pack_u32() { pack_one::<u32>() }
    fn h_pack_u64() { pack_one::<u64>() }
    fn h_unpack_u8() { unpack_any::<u8>() }
    fn h_unpack_u16() { unpack_any::<u16>() }
    fn h_unpack_u32() { unpack_any::<u32>() }
    fn h_unpack_u64() { unpack_any::<u64>() }
}
