//! Coverage and step counts of the code under test, which is built with edge callbacks.
use std::cell::Cell;
use std::cell::UnsafeCell;
use std::sync::atomic::AtomicU32;
use std::sync::atomic::Ordering;

pub const SIZE: usize = 16384;

struct Map(UnsafeCell<[u8; SIZE]>);

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static MAP: Map = const { Map(UnsafeCell::new([0; SIZE])) };
}

static GUARDS: AtomicU32 = AtomicU32::new(0);

/// # Safety
/// Called by instrumented code.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    let i = unsafe { *g } as usize;
    MAP.with(|m| {
        let m = unsafe { &mut *m.0.get() };
        let c = &mut m[i % SIZE];
        *c = c.saturating_add(1);
    });
    STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        if n > LIMIT.with(Cell::get) {
            eprintln!("step budget exceeded");
            std::process::abort();
        }
    });
}

/// # Safety
/// Called by instrumented code.
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    let n = unsafe { b.offset_from(a) };
    for i in 0..n {
        unsafe {
            let p = a.offset(i);
            if *p == 0 {
                *p = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
            }
        }
    }
}

pub fn guards() -> usize {
    GUARDS.load(Ordering::Relaxed) as usize
}

pub fn reset(limit: u64) {
    STEPS.with(|s| s.set(0));
    LIMIT.with(|s| s.set(limit));
}

/// Steps so far, ends the budget.
pub fn steps() -> u64 {
    LIMIT.with(|s| s.set(u64::MAX));
    STEPS.with(Cell::get)
}

pub fn clear() {
    MAP.with(|m| unsafe { (*m.0.get()).fill(0) });
}

/// Classes of hit counts not seen before in this chunk.
pub struct Seen(Vec<u8>);

impl Seen {
    pub fn new() -> Self {
        Seen(vec![0; SIZE])
    }
    pub fn novel(&mut self) -> bool {
        let mut new = false;
        MAP.with(|m| {
            let m = unsafe { &*m.0.get() };
            for (i, c) in m.iter().enumerate().take(guards().min(SIZE - 1) + 1) {
                if *c == 0 {
                    continue;
                }
                let bit = match *c {
                    1 => 1,
                    2 => 2,
                    3 => 4,
                    4..=7 => 8,
                    8..=15 => 16,
                    16..=31 => 32,
                    32..=127 => 64,
                    _ => 128,
                };
                if self.0[i] & bit == 0 {
                    self.0[i] |= bit;
                    new = true;
                }
            }
        });
        new
    }
    pub fn merge(&mut self, o: &Seen) {
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a |= b;
        }
    }
    pub fn edges(&self) -> usize {
        self.0.iter().filter(|c| **c != 0).count()
    }
}
