//! The counting global allocator and the request it raises.

use crate::alloc::{self, Allocator, GLOBAL_ALLOC};
use crate::{RValue, Roots, poll_flag};
use pbt::{Cx, R, Src, ensure, note, same};
use std::alloc::{GlobalAlloc, Layout};
use std::cell::RefCell;
use std::sync::atomic::{AtomicU32, Ordering};

/// Requests of this size are not counted.
const HUGE: usize = 64 << 20;
const STEP: usize = 256 << 10;
/// What this program itself may allocate between two looks.
const SLACK: usize = 64 << 10;

thread_local! {
    static OTHER: RefCell<Allocator<RValue>> = RefCell::new(Allocator::new());
}

struct Buf {
    at: *mut u8,
    layout: Layout,
}

struct Bufs {
    bufs: Vec<Buf>,
    word: Box<AtomicU32>,
}

impl Drop for Bufs {
    fn drop(&mut self) {
        alloc::set_gc_enabled(false);
        poll_flag::unregister(self.word.as_ptr());
        for b in &self.bufs {
            unsafe { GLOBAL_ALLOC.dealloc(b.at, b.layout) };
        }
    }
}

fn counted(n: usize) -> usize {
    if n < HUGE { n } else { 0 }
}

fn collect() {
    OTHER.with(|o| o.borrow_mut().gc(&Roots(vec![])));
}

pub fn buffers(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = Bufs { bufs: Vec::with_capacity(64), word: Box::new(AtomicU32::new(0)) };
    poll_flag::register(w.word.as_ptr());
    let mut enabled = true;
    alloc::set_gc_enabled(true);
    collect();
    let mut ops = 0;
    while ops < 60 && src.more(25) {
        ops += 1;
        src.begin();
        let r = step(src, cx, &mut w, &mut enabled);
        src.end();
        r?;
    }
    Ok(())
}

fn size(src: &mut Src) -> usize {
    match src.weighted(&[6, 6, 4, 1]) {
        0 => src.range(1, 300),
        1 => src.range(1, 40) * 8192,
        2 => src.range(1, 16) * 500_000,
        _ => HUGE + src.usize(3) * 4096 - 4096,
    }
}

fn step(src: &mut Src, cx: &mut Cx, w: &mut Bufs, enabled: &mut bool) -> R {
    match src.weighted(&[10, 5, 5, 3, 1]) {
        k @ (0 | 1) => {
            if w.bufs.len() == 64 {
                return Ok(());
            }
            let n = size(src);
            let zeroed = k == 1 && n < 400_000;
            let layout = Layout::from_size_align(n, src.pick(&[1, 8, 16, 64])).unwrap();
            note!(cx, "buffer of {n} bytes{}", if zeroed { ", zeroed" } else { "" });
            w.word.store(0, Ordering::Relaxed);
            let (before, limit) = (alloc::malloc_amount(), alloc::malloc_gc_threshold());
            let at = unsafe {
                if zeroed { GLOBAL_ALLOC.alloc_zeroed(layout) } else { GLOBAL_ALLOC.alloc(layout) }
            };
            let after = alloc::malloc_amount();
            let asked = w.word.load(Ordering::Relaxed) & 0xff != 0;
            ensure!(!at.is_null(), "no buffer of {n} bytes");
            ensure!(at as usize % layout.align() == 0, "a buffer at {at:?} for alignment {}", layout.align());
            w.bufs.push(Buf { at, layout });
            same!(after - before, counted(n), "bytes counted for a buffer of {n}");
            if zeroed {
                let s = unsafe { std::slice::from_raw_parts(at, n) };
                ensure!(s.iter().all(|&b| b == 0), "a zeroed buffer of {n} bytes is not zero");
            }
            let over = counted(n) > 0 && after >= limit;
            same!(asked, over && *enabled, "collection requested by a buffer of {n} bytes ({after} of {limit} in use)");
            if over {
                cx.nontrivial();
                cx.label("threshold crossed");
            }
        }
        2 => {
            if w.bufs.is_empty() {
                return Ok(());
            }
            let b = w.bufs.swap_remove(src.usize(w.bufs.len()));
            note!(cx, "buffer of {} bytes released", b.layout.size());
            let before = alloc::malloc_amount();
            unsafe { GLOBAL_ALLOC.dealloc(b.at, b.layout) };
            same!(before - alloc::malloc_amount(), counted(b.layout.size()), "bytes released");
        }
        3 => {
            if w.bufs.is_empty() {
                return Ok(());
            }
            let i = src.usize(w.bufs.len());
            let n = src.range(1, 100_000);
            let b = &mut w.bufs[i];
            if b.layout.size() > 1 << 20 {
                return Ok(());
            }
            note!(cx, "buffer of {} bytes resized to {n}", b.layout.size());
            let both = n.min(b.layout.size());
            unsafe { std::ptr::write_bytes(b.at, 0xa5, both) };
            let before = alloc::malloc_amount();
            let at = unsafe { GLOBAL_ALLOC.realloc(b.at, b.layout, n) };
            let after = alloc::malloc_amount();
            ensure!(!at.is_null(), "no buffer of {n} bytes");
            let was = b.layout.size();
            b.at = at;
            b.layout = Layout::from_size_align(n, b.layout.align()).unwrap();
            same!(after as i64 - before as i64, n as i64 - was as i64, "bytes counted for resizing {was} to {n}");
            let s = unsafe { std::slice::from_raw_parts(at, both) };
            ensure!(s.iter().all(|&b| b == 0xa5), "resizing {was} to {n} lost contents");
        }
        _ => {
            if src.bool() {
                *enabled = !*enabled;
                note!(cx, "collection enabled: {enabled}");
                alloc::set_gc_enabled(*enabled);
            } else {
                note!(cx, "collection");
                collect();
                let (used, limit) = (alloc::malloc_amount(), alloc::malloc_gc_threshold());
                ensure!(limit + SLACK >= used + STEP, "{used} bytes in use and the next collection is due at {limit}");
                ensure!(limit <= used + STEP.max(used / 2) + SLACK, "{used} bytes in use and the next collection is due only at {limit}");
            }
        }
    }
    Ok(())
}
