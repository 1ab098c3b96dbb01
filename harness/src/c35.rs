use crate::util::*;
use crate::{harnesses, sx};
use parquet2::types::{int96_to_i64_ns, ord_binary, NativeType};
use std::cmp::Ordering;

macro_rules! total {
    ($t:ident) => {{
        let (a, b) = (sx::$t(), sx::$t());
        let o = NativeType::ord(&a, &b);
        sx::check((o == Ordering::Less) == (a < b), "less");
        sx::check((o == Ordering::Greater) == (a > b), "greater");
        sx::check((o == Ordering::Equal) == (a == b), "equal");
        sx::reach(concat!("ordered ", stringify!($t)));
        // bit-for-bit through the stored form
        let bytes = NativeType::to_le_bytes(&a);
        let back = <$t as NativeType>::from_le_bytes(bytes);
        sx::check(back.to_be_bytes() == a.to_be_bytes(), "the stored form is exact");
    }};
}
macro_rules! float {
    ($t:ident) => {{
        let (a, b) = (sx::$t(), sx::$t());
        let o = NativeType::ord(&a, &b);
        // values that are not numbers have no mathematical order
        if !(a.is_nan() | b.is_nan()) {
            sx::check((o == Ordering::Less) == (a < b), "less");
            sx::check((o == Ordering::Greater) == (a > b), "greater");
            sx::check((o == Ordering::Equal) == (a == b), "equal");
            sx::reach(concat!("ordered ", stringify!($t)));
        }
        let bytes = NativeType::to_le_bytes(&a);
        let back = <$t as NativeType>::from_le_bytes(bytes);
        sx::check(back.to_bits() == a.to_bits(), "the stored form is exact");
    }};
}

harnesses! {
    fn h_native() {
        match sx::choose(4) {
            0 => total!(i32),
            1 => total!(i64),
            2 => float!(f32),
            _ => float!(f64),
        }
    }
    fn h_int96_ns() {
        let (lo, hi, day) = (sx::u32(), sx::u32(), sx::u32());
        let nanos = ((hi as u64) << 32) | lo as u64;
        let want = (day as i128 - 2_440_588) * 86_400_000_000_000 + nanos as i128;
        let fits = (want >= i64::MIN as i128) & (want <= i64::MAX as i128);
        let got = int96_to_i64_ns([lo, hi, day]);
        sx::observe(got as u64);
        sx::check(!fits | (got as i128 == want), "nanoseconds since the epoch");
        if fits {
            sx::reach("fits");
        } else {
            sx::reach("does not fit");
        }
    }
    fn h_int96_ord() {
        let a = [sx::u32(), sx::u32(), sx::u32()];
        let b = [sx::u32(), sx::u32(), sx::u32()];
        let key = |x: &[u32; 3]| x[2] as i128 * 86_400_000_000_000 + (((x[1] as u64) << 32) | x[0] as u64) as i128;
        let o = NativeType::ord(&a, &b);
        sx::check((o == Ordering::Less) == (key(&a) < key(&b)), "less");
        sx::check((o == Ordering::Greater) == (key(&a) > key(&b)), "greater");
        sx::reach("ordered");
        let bytes = NativeType::to_le_bytes(&a);
        sx::check(<[u32; 3] as NativeType>::from_le_bytes(bytes) == a, "the stored form is exact");
        let w = [bytes[4], bytes[5], bytes[6], bytes[7]];
        sx::check(u32::from_le_bytes(w) == a[1], "little-endian");
        sx::check(u32::from_le_bytes([bytes[8], bytes[9], bytes[10], bytes[11]]) == a[2], "little-endian");
    }
    // P: lengths
    fn h_binary() {
        let (n, m) = (sx::param(0), sx::param(1));
        let (a, b) = (sx::bytes(n), sx::bytes(m));
        // the big-endian number of the common prefix decides, then the lengths
        let k = n.min(m);
        let (mut x, mut y) = (0u128, 0u128);
        for i in 0..k {
            x = (x << 8) | a[i] as u128;
            y = (y << 8) | b[i] as u128;
        }
        let less = (x < y) | ((x == y) & (n < m));
        let greater = (x > y) | ((x == y) & (n > m));
        let o = ord_binary(&a, &b);
        sx::check((o == Ordering::Less) == less, "less");
        sx::check((o == Ordering::Greater) == greater, "greater");
        sx::check((o == Ordering::Equal) == (!less & !greater), "equal");
        match o {
            Ordering::Less => sx::reach("less"),
            Ordering::Greater => sx::reach("greater"),
            Ordering::Equal => sx::reach("equal"),
        }
        let _ = eq_bytes;
    }
}
