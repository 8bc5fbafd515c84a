//! Allocator that surrounds every heap block with guard zones, fills fresh and freed memory
//! with a pattern, and can verify the guards of all live blocks.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};

const ZONE: usize = 256;
const GUARD: u8 = 0xA5;
const FRESH: u8 = 0xE7;

#[repr(C)]
struct Head {
    prev: *mut Head,
    next: *mut Head,
    size: usize,
    base: usize,
    total: usize,
    align: usize,
}

pub struct Guarded;

static LOCK: AtomicBool = AtomicBool::new(false);
static LIST: AtomicUsize = AtomicUsize::new(0);
/// number of damaged guard zones found when blocks were freed
static DAMAGED: AtomicUsize = AtomicUsize::new(0);

fn lock() {
    while LOCK.compare_exchange(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() {
        std::hint::spin_loop();
    }
}
fn unlock() {
    LOCK.store(false, Ordering::Release);
}

unsafe fn intact(h: *mut Head) -> bool {
    let user = (h as usize) + std::mem::size_of::<Head>() + ZONE;
    let before = std::slice::from_raw_parts((user - ZONE) as *const u8, ZONE);
    let after = std::slice::from_raw_parts((user + (*h).size) as *const u8, ZONE);
    before.iter().all(|b| *b == GUARD) && after.iter().all(|b| *b == GUARD)
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let align = l.align().max(16);
        let front = std::mem::size_of::<Head>() + ZONE;
        let total = front + l.size() + ZONE + 2 * align;
        let base = System.alloc(Layout::from_size_align_unchecked(total, 16)) as usize;
        if base == 0 {
            return std::ptr::null_mut();
        }
        let user = (base + front + align - 1) / align * align;
        let h = (user - front) as *mut Head;
        std::ptr::write_bytes((user - ZONE) as *mut u8, GUARD, ZONE);
        std::ptr::write_bytes(user as *mut u8, FRESH, l.size());
        std::ptr::write_bytes((user + l.size()) as *mut u8, GUARD, ZONE);
        lock();
        let first = LIST.load(Ordering::Relaxed) as *mut Head;
        *h = Head { prev: std::ptr::null_mut(), next: first, size: l.size(), base, total, align };
        if !first.is_null() {
            (*first).prev = h;
        }
        LIST.store(h as usize, Ordering::Relaxed);
        unlock();
        user as *mut u8
    }

    unsafe fn dealloc(&self, p: *mut u8, _l: Layout) {
        let h = (p as usize - ZONE - std::mem::size_of::<Head>()) as *mut Head;
        lock();
        if !intact(h) {
            DAMAGED.fetch_add(1, Ordering::Relaxed);
        }
        if (*h).prev.is_null() {
            LIST.store((*h).next as usize, Ordering::Relaxed);
        } else {
            (*(*h).prev).next = (*h).next;
        }
        if !(*h).next.is_null() {
            (*(*h).next).prev = (*h).prev;
        }
        unlock();
        let (base, total, size) = ((*h).base, (*h).total, (*h).size);
        std::ptr::write_bytes(p, FRESH, size);
        System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(total, 16));
    }
}

/// All guard zones intact, now and whenever a block was freed since the last call?
pub fn heap_ok() -> bool {
    lock();
    let mut ok = DAMAGED.swap(0, Ordering::Relaxed) == 0;
    unsafe {
        let mut h = LIST.load(Ordering::Relaxed) as *mut Head;
        while !h.is_null() {
            ok &= intact(h);
            h = (*h).next;
        }
    }
    unlock();
    ok
}
