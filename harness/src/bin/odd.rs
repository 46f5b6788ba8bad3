//! The harness with another heap: fresh memory is never zero, byte buffers lie at odd
//! addresses, freed memory is overwritten.  Safe code cannot tell the difference.
#[path = "../main.rs"]
mod plain;
use std::alloc::{GlobalAlloc, Layout, System};

struct Odd;
unsafe fn shifted(l: Layout) -> Layout {
    Layout::from_size_align_unchecked(l.size() + 1, 2)
}
unsafe impl GlobalAlloc for Odd {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = if l.align() == 1 {
            let p = System.alloc(shifted(l));
            if p.is_null() { p } else { p.add(1) }
        } else {
            System.alloc(l)
        };
        if !p.is_null() {
            std::ptr::write_bytes(p, 0xa5, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() != 1 {
            return System.alloc_zeroed(l);
        }
        let p = System.alloc_zeroed(shifted(l));
        if p.is_null() { p } else { p.add(1) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        std::ptr::write_bytes(p, 0x5a, l.size());
        if l.align() == 1 {
            System.dealloc(p.sub(1), shifted(l))
        } else {
            System.dealloc(p, l)
        }
    }
    // realloc: the default (a new block, a copy, the old one given back)
}
#[global_allocator]
static A: Odd = Odd;

fn main() {
    plain::main()
}
