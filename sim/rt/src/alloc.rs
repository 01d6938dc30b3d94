//! The simulated memory: decides the initial contents of every allocation, detects misuse of
//! the allocator (wrong layout, double free, writes before/after a block or after its release),
//! counts what is alive and makes chosen allocations fail.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicU8, AtomicUsize, Ordering::SeqCst};

pub struct SimAlloc;

const LIVE: u64 = 0x11fe_b10c_11fe_b10c;
const FREED: u64 = 0xdead_b10c_dead_b10c;
const POISON: u8 = 0xDD;
const CANARY: u8 = 0xC5;
const TAIL: usize = 16;
const RING: usize = 128;

static FILL: AtomicU8 = AtomicU8::new(0);
static FILL_SEED: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
static ERR: AtomicUsize = AtomicUsize::new(0);
static ARMED: AtomicI64 = AtomicI64::new(-1);
static ARM_MIN: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static SEEN: AtomicU64 = AtomicU64::new(0);
pub static FIRED: AtomicU64 = AtomicU64::new(0);
static LOCK: AtomicBool = AtomicBool::new(false);
static mut QUARANTINE: [(usize, usize, usize); RING] = [(0, 0, 0); RING];
static mut NEXT: usize = 0;

pub fn error_name() -> Option<&'static str> {
    match ERR.swap(0, SeqCst) {
        0 => None,
        1 => Some("a block was released that is not allocated (double or wild free)"),
        2 => Some("a block was released with another layout than it was allocated with"),
        3 => Some("bytes behind the end of a block were overwritten"),
        4 => Some("a block was written after it had been released"),
        _ => Some("bytes before a block were overwritten"),
    }
}
fn flag(n: usize) {
    let _ = ERR.compare_exchange(0, n, SeqCst, SeqCst);
}
/// Contents of fresh memory from now on.
pub fn set_fill(mode: u8, seed: u64) {
    FILL.store(mode, SeqCst);
    FILL_SEED.store(seed, SeqCst);
}
/// Let the n-th (0-based) allocation of an unaligned byte block of at least `min` bytes fail. These are the blocks a builder keeps its buffer in.
pub fn arm(n: i64, min: usize) {
    SEEN.store(0, SeqCst);
    ARM_MIN.store(min, SeqCst);
    ARMED.store(n, SeqCst);
}
pub fn disarm() {
    ARM_MIN.store(usize::MAX, SeqCst);
    ARMED.store(-1, SeqCst);
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() == 1 && l.size() >= ARM_MIN.load(SeqCst) {
            SEEN.fetch_add(1, SeqCst);
            let a = ARMED.load(SeqCst);
            if a == 0 {
                ARMED.store(-1, SeqCst);
                FIRED.fetch_add(1, SeqCst);
                return std::ptr::null_mut();
            } else if a > 0 {
                ARMED.store(a - 1, SeqCst);
            }
        }
        let al = l.align().max(16);
        let pad = al.max(32);
        let Some(total) = l.size().checked_add(pad + TAIL) else {
            return std::ptr::null_mut();
        };
        let Ok(full) = Layout::from_size_align(total, al) else {
            return std::ptr::null_mut();
        };
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        let p = base.add(pad);
        let h = p.sub(32) as *mut u64;
        h.write(LIVE);
        h.add(1).write(l.size() as u64);
        h.add(2).write(l.align() as u64);
        h.add(3).write(!LIVE);
        match FILL.load(SeqCst) {
            // fresh pages, which nobody should touch
            _ if l.size() > 1 << 30 => {}
            0 => p.write_bytes(0, l.size()),
            1 => p.write_bytes(0xFF, l.size()),
            2 => p.write_bytes(0xAA, l.size()),
            _ => {
                let mut x = FILL_SEED.fetch_add(0x9E37_79B9_7F4A_7C15, SeqCst) | 1;
                for i in 0..l.size().min(1 << 16) {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    p.add(i).write((x >> 24) as u8);
                }
            }
        }
        p.add(l.size()).write_bytes(CANARY, TAIL);
        LIVE_BLOCKS.fetch_add(1, SeqCst);
        LIVE_BYTES.fetch_add(l.size() as i64, SeqCst);
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() && l.size() <= 1 << 30 {
            p.write_bytes(0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(32) as *mut u64;
        if h.read() != LIVE {
            flag(1);
            return;
        }
        let size = h.add(1).read() as usize;
        let align = h.add(2).read() as usize;
        if h.add(3).read() != !LIVE {
            flag(5);
        }
        if size != l.size() || align != l.align() {
            flag(2);
        }
        for i in 0..TAIL {
            if p.add(size + i).read() != CANARY {
                flag(3);
            }
        }
        LIVE_BLOCKS.fetch_sub(1, SeqCst);
        LIVE_BYTES.fetch_sub(size as i64, SeqCst);
        h.write(FREED);
        p.write_bytes(POISON, size.min(1 << 16));
        if size > 1 << 16 {
            release(p as usize, size, align);
            return;
        }
        while LOCK.swap(true, SeqCst) {
            std::hint::spin_loop();
        }
        let old = QUARANTINE[NEXT];
        QUARANTINE[NEXT] = (p as usize, size, align);
        NEXT = (NEXT + 1) % RING;
        LOCK.store(false, SeqCst);
        if old.0 != 0 {
            release(old.0, old.1, old.2);
        }
    }
}
unsafe fn release(p: usize, size: usize, align: usize) {
    let p = p as *mut u8;
    check_poison(p, size);
    let al = align.max(16);
    let pad = al.max(32);
    System.dealloc(p.sub(pad), Layout::from_size_align_unchecked(size + pad + TAIL, al));
}
unsafe fn check_poison(p: *mut u8, size: usize) {
    let n = size.min(1 << 16);
    for i in 0..n {
        if p.add(i).read() != POISON {
            flag(4);
            return;
        }
    }
}
/// Look at everything released recently.
pub fn check_released() {
    while LOCK.swap(true, SeqCst) {
        std::hint::spin_loop();
    }
    unsafe {
        for i in 0..RING {
            let q = QUARANTINE[i];
            if q.0 != 0 {
                check_poison(q.0 as *mut u8, q.1);
            }
        }
    }
    LOCK.store(false, SeqCst);
}
pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(SeqCst), LIVE_BYTES.load(SeqCst))
}
