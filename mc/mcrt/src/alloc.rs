//! The global allocator: the arena while an execution is tracked, the system otherwise.
use crate::engine::*;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct McAlloc;
unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ready() && g().tracking {
            let g = g();
            g.alloc_calls += 1;
            if let Some(n) = &mut g.fail_alloc_in {
                if *n == 0 {
                    return core::ptr::null_mut();
                }
                *n -= 1;
            }
            if g.alloc_faults && !std::thread::panicking() && fault() {
                return core::ptr::null_mut();
            }
            arena_alloc(l.size(), l.align())
        } else {
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ready() && in_arena(p as usize) {
            if g().tracking || g().in_exec {
                arena_free(p, Some((l.size(), l.align())))
            }
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ready() && in_arena(p as usize) {
            if Layout::from_size_align(new, l.align()).is_err() {
                violation("system-realloc", format!("the system allocator was asked to grow a block to {new} bytes, which it must not be"));
            }
            let n = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !n.is_null() {
                crate::engine::access(p as usize, l.size().min(new), false);
                core::ptr::copy_nonoverlapping(p, n, l.size().min(new));
                self.dealloc(p, l);
            }
            n
        } else {
            System.realloc(p, l, new)
        }
    }
}
#[global_allocator]
static ALLOC: McAlloc = McAlloc;
