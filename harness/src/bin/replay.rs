//! Native replay: runs one harness of the real code on concrete inputs.
//! stdin: lines "H <harness>", "P <params>", "I <hex>,<hex>,..." , "E <observed hex,...>" (optional), "GO".
//! Each case runs in this process for samples; violations are replayed one process per case by the runner.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::io::BufRead;

thread_local! {
    static INPUT: RefCell<(Vec<Vec<u8>>, usize)> = RefCell::new((vec![], 0));
    static PARAMS: RefCell<Vec<u64>> = RefCell::new(vec![]);
    static OBS: RefCell<Vec<u64>> = RefCell::new(vec![]);
}
fn next(n: usize) -> Vec<u8> {
    INPUT.with(|i| {
        let mut i = i.borrow_mut();
        let k = i.1;
        i.1 += 1;
        if k >= i.0.len() {
            // inputs past the recorded ones were not constrained
            return vec![0; n];
        }
        let b = i.0[k].clone();
        if b.len() != n {
            eprintln!("REPLAY-MISMATCH: input {} has {} bytes, wanted {}", k, b.len(), n);
            std::process::exit(78);
        }
        b
    })
}
#[no_mangle]
extern "C" fn sx_fill(p: *mut u8, n: usize) {
    let mut off = 0;
    while off < n {
        let k = match n - off {
            r if r >= 8 => 8,
            r if r >= 4 => 4,
            r if r >= 2 => 2,
            _ => 1,
        };
        let k = if n == k { k } else { 1 };
        let b = next(k);
        for j in 0..k {
            unsafe { *p.add(off + j) = b[j] };
        }
        off += k;
    }
}
#[no_mangle]
extern "C" fn sx_choose(_n: u64) -> u64 {
    let b = next(8);
    u64::from_le_bytes(b.try_into().unwrap())
}
#[no_mangle]
extern "C" fn sx_assume(c: bool) {
    if !c {
        eprintln!("REPLAY-MISMATCH: assumption does not hold natively");
        std::process::exit(77);
    }
}
#[no_mangle]
extern "C" fn sx_check(c: bool, p: *const u8, n: usize) {
    if !c {
        let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
        println!("CHECK-FAILED: {}", m);
        std::process::exit(101);
    }
}
#[no_mangle]
extern "C" fn sx_observe(v: u64) {
    OBS.with(|o| o.borrow_mut().push(v))
}
#[no_mangle]
extern "C" fn sx_reach(_p: *const u8, _n: usize) {}
#[no_mangle]
extern "C" fn sx_param(i: u32) -> u64 {
    PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn sx_concrete(v: u64) -> u64 {
    v
}
/// counts as the executor does: a reallocation is an allocation and then a deallocation
struct Counting;
static HEAP: [AtomicUsize; 3] = [AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)];
static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);
fn add(n: usize) {
    if n > LIMIT.load(Relaxed) {
        LIMIT.store(usize::MAX, Relaxed);
        println!("CHECK-FAILED: allocation of {} bytes", n);
        std::process::exit(101);
    }
    let now = HEAP[0].fetch_add(n, Relaxed) + n;
    HEAP[1].fetch_max(now, Relaxed);
}
fn sub(n: usize) {
    HEAP[0].fetch_sub(n, Relaxed);
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { add(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { add(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { sub(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { add(n); sub(l.size()); System.realloc(p, l, n) }
}
#[global_allocator]
static ALLOCATOR: Counting = Counting;
#[no_mangle]
extern "C" fn sx_alloc_limit(n: u64, violation: u64) {
    LIMIT.store(if violation == 1 { n as usize } else { usize::MAX }, Relaxed)
}
#[no_mangle]
extern "C" fn sx_memory(reset: u64) -> u64 {
    let now = HEAP[0].load(Relaxed);
    if reset != 0 { HEAP[1].store(now, Relaxed); HEAP[2].store(now, Relaxed); }
    (HEAP[1].load(Relaxed) - HEAP[2].load(Relaxed)) as u64
}
#[no_mangle]
extern "C" fn sx_log(p: *const u8, n: usize, v: u64) {
    let m = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    println!("LOG {} {}", m, v);
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let stdin = std::io::stdin();
    let mut h = String::new();
    let mut expect: Option<Vec<u64>> = None;
    let mut n = 0;
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let (k, v) = l.split_once(' ').unwrap_or((l.as_str(), ""));
        match k {
            "H" => h = v.to_string(),
            "P" => PARAMS.with(|p| *p.borrow_mut() = v.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            "I" => INPUT.with(|i| *i.borrow_mut() = (v.split(',').filter(|s| !s.is_empty()).map(unhex).collect(), 0)),
            "E" => expect = Some(v.split(',').filter(|s| !s.is_empty()).map(|s| u64::from_str_radix(s, 16).unwrap()).collect()),
            "GO" => {
                OBS.with(|o| o.borrow_mut().clear());
                let f = pq2_harness::lookup(&h).unwrap_or_else(|| {
                    eprintln!("no harness {}", h);
                    std::process::exit(79)
                });
                // small stacks overflow quickly, as they would in a worker thread
                f();
                LIMIT.store(usize::MAX, Relaxed);
                let obs = OBS.with(|o| o.borrow().clone());
                if let Some(e) = expect.take() {
                    if e != obs {
                        eprintln!("TRACE-MISMATCH in {}: predicted {:x?} native {:x?}", h, e, obs);
                        std::process::exit(80);
                    }
                }
                n += 1;
            }
            _ => {}
        }
    }
    println!("REPLAYED {}", n);
}
