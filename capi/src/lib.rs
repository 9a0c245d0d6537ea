//! The C interface as a C program sees it: a shared library with the exported functions. The
//! allocator keeps account of every block, so that a vector which is freed twice, not at all, or
//! used after it has been freed is noticed.
pub use basic_dsp_interop::*;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicIsize, AtomicPtr, AtomicU64, Ordering::*};

const SLOTS: usize = 256;
const LIVE: u64 = 0x11fe_11fe_11fe_11fe;
const DEAD: u64 = 0xdead_dead_dead_dead;
const TAIL: usize = 64;

#[repr(C)]
struct Head {
    magic: AtomicU64,
    size: usize,
    front: usize,
    align: usize,
    slot: usize,
    next: *mut Head,
}

static LIVE_BLOCKS: [AtomicIsize; SLOTS] = [const { AtomicIsize::new(0) }; SLOTS];
static BAD: [AtomicU64; SLOTS] = [const { AtomicU64::new(0) }; SLOTS];
static FREED: [AtomicPtr<Head>; SLOTS] = [const { AtomicPtr::new(std::ptr::null_mut()) }; SLOTS];
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(0) };
}

struct Account;
unsafe impl GlobalAlloc for Account {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let front = l.align().max(64);
        let p = System.alloc(Layout::from_size_align_unchecked(front + l.size() + TAIL, front));
        if p.is_null() {
            return p;
        }
        let slot = SLOT.try_with(|s| s.get()).unwrap_or(0);
        let u = p.add(front);
        let h = (u as *mut Head).sub(1);
        std::ptr::write(h, Head { magic: AtomicU64::new(LIVE), size: l.size(), front, align: front, slot, next: std::ptr::null_mut() });
        std::ptr::write_bytes(u, 0xfa, l.size());
        std::ptr::write_bytes(u.add(l.size()), 0xc3, TAIL);
        LIVE_BLOCKS[slot].fetch_add(1, Relaxed);
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, _: Layout) {
        let h = (u as *mut Head).sub(1);
        let slot = (*h).slot % SLOTS;
        if (*h).magic.compare_exchange(LIVE, DEAD, SeqCst, SeqCst).is_err() {
            BAD[slot].fetch_or(1, SeqCst);
            return;
        }
        let n = (*h).size;
        if (0..TAIL).any(|i| *u.add(n + i) != 0xc3) {
            BAD[slot].fetch_or(2, SeqCst);
        }
        LIVE_BLOCKS[slot].fetch_sub(1, Relaxed);
        std::ptr::write_bytes(u, 0xfb, n);
        if slot == 0 {
            release(h);
            return;
        }
        let mut top = FREED[slot].load(SeqCst);
        loop {
            (*h).next = top;
            match FREED[slot].compare_exchange(top, h, SeqCst, SeqCst) {
                Ok(_) => break,
                Err(x) => top = x,
            }
        }
    }
}
unsafe fn release(h: *mut Head) {
    let (size, front, align) = ((*h).size, (*h).front, (*h).align);
    let u = h.add(1) as *mut u8;
    System.dealloc(u.sub(front), Layout::from_size_align_unchecked(front + size + TAIL, align));
}

#[global_allocator]
static A: Account = Account;

/// All blocks which this thread allocates from now on belong to the slot.
#[no_mangle]
pub extern "C" fn capi_enter(slot: usize) {
    SLOT.with(|s| s.set(slot % SLOTS));
}
/// The number of blocks of the slot which haven't been freed.
#[no_mangle]
pub extern "C" fn capi_live(slot: usize) -> isize {
    LIVE_BLOCKS[slot % SLOTS].load(SeqCst)
}
/// Forgets the freed blocks. 0: fine, 1: freed twice, 2: written behind the end, 4: written after it was freed.
#[no_mangle]
pub extern "C" fn capi_flush(slot: usize) -> u64 {
    let slot = slot % SLOTS;
    let mut bad = BAD[slot].swap(0, SeqCst);
    let mut h = FREED[slot].swap(std::ptr::null_mut(), SeqCst);
    while !h.is_null() {
        unsafe {
            let next = (*h).next;
            let u = h.add(1) as *mut u8;
            if (0..(*h).size).any(|i| *u.add(i) != 0xfb) {
                bad |= 4;
            }
            release(h);
            h = next;
        }
    }
    bad
}
