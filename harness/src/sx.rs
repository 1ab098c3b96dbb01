//! Symbolic runtime interface. Under the symbolic executor these externs are intrinsics;
//! natively (src/bin/replay.rs) they replay one concrete input vector.
extern "C" {
    fn sx_fill(p: *mut u8, n: usize);
    fn sx_choose(n: u64) -> u64;
    fn sx_assume(c: bool);
    fn sx_check(c: bool, p: *const u8, n: usize);
    fn sx_observe(v: u64);
    fn sx_reach(p: *const u8, n: usize);
    fn sx_param(i: u32) -> u64;
    fn sx_concrete(v: u64) -> u64;
    fn sx_alloc_limit(n: u64, violation: u64);
    fn sx_memory(reset: u64) -> u64;
    fn sx_log(p: *const u8, n: usize, v: u64);
}

macro_rules! scalar {
    ($($n:ident: $t:ty),*) => {$(
        #[inline(always)]
        pub fn $n() -> $t {
            let mut b = [0u8; std::mem::size_of::<$t>()];
            unsafe { sx_fill(b.as_mut_ptr(), b.len()) };
            <$t>::from_le_bytes(b)
        }
    )*};
}
// an arbitrary value of the type
scalar!(u8: u8, u16: u16, u32: u32, u64: u64, i32: i32, i64: i64, f32: f32, f64: f64);

#[inline(always)]
pub fn usize() -> usize {
    u64() as usize
}
#[inline(always)]
pub fn i16() -> i16 {
    u16() as i16
}
#[inline(always)]
pub fn i8() -> i8 {
    u8() as i8
}
#[inline(always)]
pub fn bool() -> bool {
    u8() & 1 == 1
}
/// arbitrary value in `lo..=hi`
#[inline(always)]
pub fn range(lo: usize, hi: usize) -> usize {
    let v = usize();
    assume(v >= lo && v <= hi);
    v
}
/// arbitrary buffer of the (concrete) length n
#[inline(always)]
pub fn bytes(n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 0 {
        // one variable per byte, whatever the length
        for i in 0..n {
            unsafe { sx_fill(v.as_mut_ptr().add(i), 1) };
        }
    }
    v
}
/// one of 0..n, each explored as its own concrete branch
#[inline(always)]
pub fn choose(n: usize) -> usize {
    unsafe { sx_choose(n as u64) as usize }
}
#[inline(always)]
pub fn flag() -> bool {
    choose(2) == 1
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { sx_assume(c) }
}
#[inline(always)]
pub fn check(c: bool, msg: &'static str) {
    unsafe { sx_check(c, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn observe(v: u64) {
    unsafe { sx_observe(v) }
}
/// vacuity witness: the runner requires every registered label to be reached
#[inline(always)]
pub fn reach(l: &'static str) {
    unsafe { sx_reach(l.as_ptr(), l.len()) }
}
#[inline(always)]
pub fn param(i: u32) -> usize {
    unsafe { sx_param(i) as usize }
}
/// fork over all feasible values
#[inline(always)]
pub fn concrete(v: usize) -> usize {
    unsafe { sx_concrete(v as u64) as usize }
}
/// paths that allocate more than n bytes at once are cut (or reported)
#[inline(always)]
pub fn alloc_limit(n: usize, violation: bool) {
    unsafe { sx_alloc_limit(n as u64, violation as u64) }
}
/// the most bytes on the heap since the last reset beyond those at the reset
#[inline(always)]
pub fn memory(reset: bool) -> usize {
    unsafe { sx_memory(reset as u64) as usize }
}
#[inline(always)]
pub fn log(l: &'static str, v: u64) {
    unsafe { sx_log(l.as_ptr(), l.len(), v) }
}

/// observe a byte slice
#[inline(always)]
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for x in b {
        observe(*x as u64);
    }
}

#[macro_export]
macro_rules! harnesses {
    ($(fn $n:ident() $b:block)*) => {
        $(#[no_mangle] pub extern "C" fn $n() $b)*
        pub const TABLE: &[(&str, extern "C" fn())] = &[$((stringify!($n), $n)),*];
    };
}
