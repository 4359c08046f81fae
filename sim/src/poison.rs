//! Makes the use of freed memory a function of the run: while a run is guarded, what it frees is overwritten and kept from reuse
//! until the run ends, so that a value which is used after its end is found by every execution of the run or by none.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Memory;

const BLOCKS: usize = 1 << 16;
const BYTES: usize = 64 << 20;
const POISON: u8 = 0xd9;

thread_local! {
    static LIST: Cell<*mut (*mut u8, Layout)> = const { Cell::new(std::ptr::null_mut()) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<usize> = const { Cell::new(0) };
    static KEPT: Cell<usize> = const { Cell::new(0) };
}

// SAFETY: Everything is left to the system's allocator; blocks only reach it later.
unsafe impl GlobalAlloc for Memory {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        System.alloc(layout)
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        System.alloc_zeroed(layout)
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        let n = COUNT.get();
        if ON.get() && n < BLOCKS && KEPT.get() + layout.size() < BYTES {
            std::ptr::write_bytes(p, POISON, layout.size());
            LIST.get().add(n).write((p, layout));
            COUNT.set(n + 1);
            KEPT.set(KEPT.get() + layout.size());
        } else {
            System.dealloc(p, layout);
        }
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        if !ON.get() {
            return System.realloc(p, layout, size);
        }
        let new = System.alloc(Layout::from_size_align_unchecked(size, layout.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(p, new, layout.size().min(size));
            self.dealloc(p, layout);
        }
        new
    }
}

pub struct Guard(());

pub fn guard() -> Guard {
    // SAFETY: the list belongs to this thread and is used only while its flag is set.
    unsafe {
        if LIST.get().is_null() {
            LIST.set(System.alloc(Layout::array::<(*mut u8, Layout)>(BLOCKS).expect("layout")).cast());
        }
    }
    assert!(!LIST.get().is_null() && !ON.replace(true));
    Guard(())
}

impl Drop for Guard {
    fn drop(&mut self) {
        ON.set(false);
        for n in 0..COUNT.replace(0) {
            // SAFETY: every entry is a block that was freed while the flag was set.
            unsafe {
                let (p, layout) = LIST.get().add(n).read();
                System.dealloc(p, layout);
            }
        }
        KEPT.set(0);
    }
}
