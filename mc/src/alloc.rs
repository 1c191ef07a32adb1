//! Thread-local free lists for small blocks: the explorer's threads allocate
//! many tiny strings and buffers, and must not contend for the system heap.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Local;
const CLASSES: usize = 8; // 16, 32, ..., 2048 bytes

thread_local! {
    static FREE: [Cell<*mut u8>; CLASSES] = const { [const { Cell::new(std::ptr::null_mut()) }; CLASSES] };
}

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
}
/// Heap allocations of this thread so far.
pub fn count() -> u64 {
    COUNT.with(|c| c.get())
}

thread_local! {
    static BUSY: Cell<bool> = const { Cell::new(false) };
}
/// Is this thread inside the allocator?
pub fn busy() -> bool {
    BUSY.with(|b| b.get())
}
struct Busy;
impl Busy {
    fn new() -> Busy {
        BUSY.with(|b| b.set(true));
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.with(|b| b.set(false));
    }
}

fn class(l: &Layout) -> Option<usize> {
    // Miri wants to know what is freed.
    if cfg!(miri) || l.align() > 16 || l.size() > 2048 || l.size() == 0 {
        return None;
    }
    Some((l.size().max(16).next_power_of_two().trailing_zeros() - 4) as usize)
}

unsafe impl GlobalAlloc for Local {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _busy = Busy::new();
        COUNT.with(|c| c.set(c.get() + 1));
        let Some(c) = class(&l) else { return unsafe { System.alloc(l) } };
        FREE.with(|f| {
            let p = f[c].get();
            if p.is_null() {
                return unsafe { System.alloc(Layout::from_size_align_unchecked(16 << c, 16)) };
            }
            f[c].set(unsafe { *(p as *mut *mut u8) });
            p
        })
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _busy = Busy::new();
        let Some(c) = class(&l) else { return unsafe { System.dealloc(p, l) } };
        FREE.with(|f| {
            unsafe { *(p as *mut *mut u8) = f[c].get() };
            f[c].set(p);
        })
    }
}
