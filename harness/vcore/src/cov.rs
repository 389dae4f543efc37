//! Coverage feedback: the crate under test is compiled with inline 8-bit counters.
use std::sync::atomic::{AtomicUsize, Ordering};

static START: AtomicUsize = AtomicUsize::new(0);
static LEN: AtomicUsize = AtomicUsize::new(0);

#[no_mangle]
pub extern "C" fn __sanitizer_cov_8bit_counters_init(start: *mut u8, end: *mut u8) {
    // several modules (codegen units share one section): keep the widest range
    let len = end as usize - start as usize;
    if len > LEN.load(Ordering::Relaxed) {
        START.store(start as usize, Ordering::Relaxed);
        LEN.store(len, Ordering::Relaxed);
    }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_pcs_init(_start: *const usize, _end: *const usize) {}

pub fn len() -> usize {
    LEN.load(Ordering::Relaxed)
}

pub fn reset() {
    let n = len();
    if n > 0 {
        unsafe { std::ptr::write_bytes(START.load(Ordering::Relaxed) as *mut u8, 0, n) }
    }
}

fn bucket(c: u8) -> u8 {
    match c {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

/// The counts seen so far, bucketed; `observe` says whether this run added something.
pub struct Map {
    seen: Vec<u8>,
}

impl Map {
    pub fn new() -> Map {
        Map { seen: vec![0; len()] }
    }
    pub fn observe(&mut self) -> bool {
        let n = len();
        let p = START.load(Ordering::Relaxed) as *const u8;
        let mut new = false;
        let mut i = 0;
        // eight counters at a time: most are zero
        while i < n {
            if i + 8 <= n && unsafe { std::ptr::read_unaligned(p.add(i) as *const u64) } == 0 {
                i += 8;
                continue;
            }
            let b = bucket(unsafe { std::ptr::read_volatile(p.add(i)) });
            if b & !self.seen[i] != 0 {
                self.seen[i] |= b;
                new = true;
            }
            i += 1;
        }
        new
    }
    pub fn covered(&self) -> usize {
        self.seen.iter().filter(|b| **b != 0).count()
    }
}
