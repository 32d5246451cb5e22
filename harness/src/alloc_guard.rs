//! A global allocator that turns a runaway allocation made by the code under test into a reported
//! violation instead of an out-of-memory kill.
use crate::{Ctx, Found};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Guarded;

static LIMIT: AtomicUsize = AtomicUsize::new(usize::MAX);

thread_local! {
    static CUR: Cell<(*const Ctx, *const (String, Vec<usize>))> = const { Cell::new((std::ptr::null(), std::ptr::null())) };
    static BYTES: Cell<usize> = const { Cell::new(0) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

/// Largest number of live bytes one execution may hold.
pub fn set_limit(bytes: usize) {
    LIMIT.store(bytes, Relaxed);
}

pub fn set_current(ctx: &Ctx, space: &str, choices: &[usize]) {
    if LIMIT.load(Relaxed) == usize::MAX {
        return;
    }
    let b = Box::into_raw(Box::new((space.to_string(), choices.to_vec())));
    CUR.with(|c| c.set((ctx, b)));
    BYTES.with(|b| b.set(0));
}
pub fn clear_current() {
    CUR.with(|c| {
        let (_, b) = c.get();
        c.set((std::ptr::null(), std::ptr::null()));
        if !b.is_null() {
            drop(unsafe { Box::from_raw(b as *mut (String, Vec<usize>)) });
        }
    });
}

#[cold]
fn over(n: usize) {
    BUSY.with(|b| b.set(true));
    let (ctx, ch) = CUR.with(|c| c.get());
    let (ctx, ch) = unsafe { (&*ctx, &*ch) };
    ctx.report(Found {
        key: "runaway-allocation".into(),
        msg: format!("one execution asked for {n} bytes of live memory"),
        space: ch.0.clone(),
        choices: ch.1.clone(),
    });
    let rc = ctx.finish();
    std::process::exit(rc);
}

unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if CUR.try_with(|c| !c.get().0.is_null()).unwrap_or(false)
            && !BUSY.try_with(|b| b.get()).unwrap_or(true)
        {
            let n = BYTES.with(|b| {
                let n = b.get().saturating_add(l.size());
                b.set(n);
                n
            });
            if n > LIMIT.load(Relaxed) && n < usize::MAX / 2 {
                over(n);
            }
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = BYTES.try_with(|b| b.set(b.get().saturating_sub(l.size())));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() {
            let np = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !np.is_null() {
                std::ptr::copy_nonoverlapping(p, np, l.size());
                self.dealloc(p, l);
            }
            np
        } else {
            System.realloc(p, l, new)
        }
    }
}
