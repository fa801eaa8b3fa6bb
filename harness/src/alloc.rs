//! A counting allocator: live and peak bytes requested by the current thread.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

pub struct Counting;

fn add(size: isize) {
    let _ = LIVE.try_with(|live| {
        let now = live.get() + size;
        live.set(now);
        let _ = PEAK.try_with(|peak| {
            if now > peak.get() {
                peak.set(now);
            }
        });
    });
}

/// Refuse what would endanger the machine, so that unlimited growth ends the process (and is
/// attributed to the case at hand) before the memory is exhausted.
fn excessive(size: usize) -> bool {
    const LIMIT: isize = 3 << 30;
    LIVE.try_with(|live| live.get().saturating_add(size as isize) > LIMIT).unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if excessive(layout.size()) {
            return std::ptr::null_mut();
        }
        add(layout.size() as isize);
        System.alloc(layout)
    }
    unsafe fn dealloc(&self, pointer: *mut u8, layout: Layout) {
        add(-(layout.size() as isize));
        System.dealloc(pointer, layout)
    }
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if excessive(layout.size()) {
            return std::ptr::null_mut();
        }
        add(layout.size() as isize);
        System.alloc_zeroed(layout)
    }
    unsafe fn realloc(&self, pointer: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        if excessive(size) {
            return std::ptr::null_mut();
        }
        // During a reallocation both blocks may exist.
        add(size as isize);
        let result = System.realloc(pointer, layout, size);
        add(-(layout.size() as isize));
        result
    }
}

/// Start measuring and return the bytes live now.
pub fn begin() -> isize {
    let live = LIVE.with(|live| live.get());
    PEAK.with(|peak| peak.set(live));
    live
}

/// Return the peak of bytes requested since `begin`.
pub fn peak(begin: isize) -> usize {
    (PEAK.with(|peak| peak.get()) - begin).max(0) as usize
}
