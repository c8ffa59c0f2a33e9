//! Counts the memory the client holds: what is allocated while its code runs and not freed yet.
//! The simulator marks where the client's code runs; each block remembers whose it is.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static CLIENT: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
}

/// While it exists the client's code runs, or does not.
pub struct Scope(bool);

pub fn client() -> Scope {
    Scope(CLIENT.with(|c| c.replace(true)))
}

pub fn simulator() -> Scope {
    Scope(CLIENT.with(|c| c.replace(false)))
}

impl Drop for Scope {
    fn drop(&mut self) {
        CLIENT.with(|c| c.set(self.0))
    }
}

/// Bytes the client holds.
pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

pub fn reset() {
    LIVE.with(|l| l.set(0))
}

struct Counting;

#[global_allocator]
static ALLOC: Counting = Counting;

fn outer(l: Layout) -> Option<(Layout, usize)> {
    let head = l.align().max(16);
    Some((Layout::from_size_align(l.size().checked_add(head)?, head).ok()?, head))
}

/// The word before the block: its size if the client allocated it.
unsafe fn mark(base: *mut u8, head: usize, size: usize) -> *mut u8 {
    if base.is_null() {
        return base;
    }
    let p = base.add(head);
    let own = CLIENT.try_with(|c| c.get()).unwrap_or(false) && size > 0;
    *(p as *mut usize).sub(1) = if own { size } else { 0 };
    if own {
        let _ = LIVE.try_with(|l| l.set(l.get() + size as isize));
    }
    p
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        match outer(l) {
            Some((o, head)) => mark(System.alloc(o), head, l.size()),
            None => std::ptr::null_mut(),
        }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        match outer(l) {
            Some((o, head)) => mark(System.alloc_zeroed(o), head, l.size()),
            None => std::ptr::null_mut(),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let Some((o, head)) = outer(l) else { return };
        let own = *(p as *mut usize).sub(1);
        if own > 0 {
            let _ = LIVE.try_with(|l| l.set(l.get() - own as isize));
        }
        System.dealloc(p.sub(head), o)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        let Some((o, head)) = outer(l) else { return std::ptr::null_mut() };
        let Some(total) = size.checked_add(head) else { return std::ptr::null_mut() };
        let own = *(p as *mut usize).sub(1);
        let base = System.realloc(p.sub(head), o, total);
        if base.is_null() {
            return base;
        }
        let q = base.add(head);
        if own > 0 {
            *(q as *mut usize).sub(1) = size;
            let _ = LIVE.try_with(|l| l.set(l.get() + size as isize - own as isize));
        }
        q
    }
}
