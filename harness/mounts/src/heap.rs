//! Mutator histories over one heap, with a model of what is reachable.

use crate::alloc::{self, Allocator, GCBox};
use crate::{ARMED, LIVE, LOG, OLD, RValue, Roots, poll_flag, stamp};
use pbt::{Cx, R, Src, ensure, fail, note, same};
use std::cell::RefCell;
use std::collections::HashMap;
use std::ptr::NonNull;
use std::sync::atomic::{AtomicU32, Ordering};

const CELL: usize = 64;

struct Obj {
    at: *mut RValue,
    refs: [u32; 4],
    wide: Option<Vec<u32>>,
    freed: bool,
    /// How many collections it has been through.
    seen: u8,
}

/// No object.
const NIL: u32 = u32::MAX;

struct World {
    heap: Allocator<RValue>,
    word: Box<AtomicU32>,
    objs: Vec<Obj>,
    roots: Vec<u32>,
    /// Who holds each cell.
    held: HashMap<usize, u32>,
    lo: usize,
    hi: usize,
    account: bool,
    freed: usize,
    pages_freed: usize,
    run_of_minors: usize,
    since_major: usize,
    /// A full collection was asked for and has not run.
    forced: bool,
    stress: bool,
    profile_on: bool,
    profile: usize,
    /// Pages opened since the last collection.
    filled: usize,
    /// Something other than the heap asked for a collection.
    asked: bool,
    salvaged_in_use: bool,
    /// The history ended without a complaint.
    sound: bool,
}

impl Drop for World {
    fn drop(&mut self) {
        poll_flag::unregister(self.word.as_ptr());
        unsafe extern "C" {
            fn madvise(addr: *mut u8, len: usize, advice: i32) -> i32;
        }
        // The arena of an allocator is never unmapped; give its memory back.
        for o in &mut self.objs {
            if self.sound && !o.freed {
                unsafe { (*o.at).wide = None };
            }
        }
        let lo = self.lo.saturating_add(4095) & !4095;
        let hi = (self.hi + CELL) & !4095;
        if lo < hi {
            unsafe { madvise(lo as *mut u8, hi - lo, 4) };
        }
    }
}

thread_local! {
    /// A heap of no case, used to answer a request a case left behind.
    static OTHER: RefCell<Allocator<RValue>> = RefCell::new(Allocator::new());
}

impl World {
    fn new(account: bool) -> World {
        let word = Box::new(AtomicU32::new(0));
        poll_flag::register(word.as_ptr());
        // Requests come from the heap only, not from the buffers of this program.
        alloc::set_gc_enabled(false);
        OTHER.with(|o| o.borrow_mut().gc(&Roots(vec![])));
        LOG.with(|l| *l.borrow_mut() = Default::default());
        word.store(0, Ordering::Relaxed);
        World {
            heap: Allocator::new(),
            word,
            objs: vec![],
            roots: vec![],
            held: HashMap::new(),
            lo: usize::MAX,
            hi: 0,
            account,
            freed: 0,
            pages_freed: 0,
            run_of_minors: 0,
            since_major: 0,
            forced: false,
            stress: false,
            profile_on: false,
            profile: 0,
            filled: 0,
            asked: false,
            salvaged_in_use: false,
            sound: false,
        }
    }

    fn cell(&self, i: u32) -> &'static mut RValue {
        let at = self.objs[i as usize].at;
        unsafe { &mut *at }
    }

    fn requested(&self) -> bool {
        self.word.load(Ordering::Relaxed) & 0xff != 0
    }

    /// The allocation path compiled code runs inline.
    fn inline(&mut self, v: RValue) -> Result<*mut RValue, RValue> {
        unsafe {
            let head = self.heap.free_list_head_addr();
            let cell;
            if *head != 0 {
                cell = *head as *mut RValue;
                *head = (*cell).head as usize;
                *self.heap.free_list_count_addr() -= 1;
            } else {
                let used = self.heap.used_in_current_addr();
                if *used >= alloc::BUMP_INLINE_LIMIT {
                    return Err(v);
                }
                cell = (*self.heap.current_page_addr()
                    + (*used << alloc::CELL_SIZE_SHIFT)
                    + alloc::PAGE_DATA_OFFSET) as *mut RValue;
                *used += 1;
            }
            *self.heap.total_allocated_addr() += 1;
            std::ptr::write(cell, v);
            Ok(cell)
        }
    }

    /// Allocates an object without references.
    fn alloc(&mut self, inline: bool, promotable: bool, wide: bool) -> Result<u32, String> {
        let id = self.objs.len() as u32;
        let mut v = Some(RValue::new(id as u64, promotable, wide));
        let mut at = std::ptr::null_mut();
        if inline {
            match self.inline(v.take().unwrap()) {
                Ok(p) => at = p,
                Err(back) => v = Some(back),
            }
        }
        if let Some(v) = v {
            at = self.heap.alloc(v);
        }
        let a = at as usize;
        ensure!(a != 0 && a % CELL == 0, "a cell at {a:#x}");
        self.lo = self.lo.min(a);
        self.hi = self.hi.max(a);
        if let Some(other) = self.held.insert(a, id) {
            fail!("the cell handed out for object {id} is the one of object {other}, which was never freed");
        }
        self.objs.push(Obj {
            at,
            refs: [NIL; 4],
            wide: wide.then(Vec::new),
            freed: false,
            seen: 0,
        });
        Ok(id)
    }

    fn barrier(&mut self, x: u32, child: u32, bulk: bool) {
        let c = self.cell(x);
        if c.head & ARMED != 0 && (bulk || child != NIL) {
            c.enter_remembered();
            self.heap.remember(NonNull::from(&mut *c));
        }
    }

    fn ptr(&self, i: u32) -> *mut RValue {
        if i == NIL { std::ptr::null_mut() } else { self.objs[i as usize].at }
    }

    fn store(&mut self, x: u32, slot: usize, y: u32, bulk: bool) {
        self.cell(x).refs[slot] = self.ptr(y);
        self.objs[x as usize].refs[slot] = y;
        self.barrier(x, y, bulk);
    }

    fn push(&mut self, x: u32, y: u32) {
        let p = self.ptr(y);
        if let Some(w) = &mut self.objs[x as usize].wide {
            w.push(y);
            self.cell(x).wide.as_mut().unwrap().push(p);
            self.barrier(x, y, false);
        } else {
            self.store(x, y as usize % 4, y, false);
        }
    }

    fn drop_wide(&mut self, x: u32, keep: usize) {
        if let Some(w) = &mut self.objs[x as usize].wide {
            w.truncate(keep);
            self.cell(x).wide.as_mut().unwrap().truncate(keep);
        }
    }

    fn next_of(&self, x: u32, k: usize) -> u32 {
        let o = &self.objs[x as usize];
        match &o.wide {
            Some(w) if !w.is_empty() && k >= 4 => w[k % w.len()],
            _ => o.refs[k % 4],
        }
    }

    /// Walks from a root to an object the program can name.
    fn pick(&self, src: &mut Src) -> u32 {
        if self.roots.is_empty() {
            return NIL;
        }
        let mut x = self.roots[src.usize(self.roots.len())];
        for _ in 0..src.usize(6) {
            let y = self.next_of(x, src.usize(8));
            if y == NIL {
                break;
            }
            x = y;
        }
        x
    }

    /// Marks what `start` reaches in the model.
    fn reach(&self, start: impl Iterator<Item = u32>) -> Vec<bool> {
        let mut seen = vec![false; self.objs.len()];
        let mut todo: Vec<u32> = vec![];
        for r in start {
            if !seen[r as usize] {
                seen[r as usize] = true;
                todo.push(r);
            }
        }
        while let Some(x) = todo.pop() {
            let o = &self.objs[x as usize];
            for &y in o.refs.iter().chain(o.wide.iter().flatten()) {
                if y != NIL && !seen[y as usize] {
                    seen[y as usize] = true;
                    todo.push(y);
                }
            }
        }
        seen
    }

    fn is_old(&self, i: u32) -> bool {
        !self.objs[i as usize].freed && self.cell(i).head & OLD != 0
    }

    /// The objects the program still has are what they were.
    fn intact(&self, reach: &[bool]) -> R {
        for (i, o) in self.objs.iter().enumerate() {
            if !reach[i] {
                continue;
            }
            let c = unsafe { &*o.at };
            ensure!(c.head & LIVE != 0, "object {i} is reachable, but its cell was freed or reused");
            ensure!(c.id == i as u64 && c.stamp == stamp(i as u64), "object {i} is reachable, but its cell holds object {}", c.id);
            for k in 0..4 {
                ensure!(c.refs[k] == self.ptr(o.refs[k]), "reference {k} of object {i} changed");
            }
            match (&c.wide, &o.wide) {
                (None, None) => {}
                (Some(a), Some(b)) => ensure!(
                    a.len() == b.len() && a.iter().zip(b).all(|(p, &j)| *p == self.ptr(j)),
                    "the list of object {i} changed"
                ),
                _ => fail!("object {i} changed its kind"),
            }
        }
        Ok(())
    }

    fn trouble(&self) -> R {
        match LOG.with(|l| l.borrow_mut().bad.take()) {
            Some(s) => Err(s),
            None => Ok(()),
        }
    }

    /// Takes the log of freed cells into the model.
    fn freed(&mut self, reach: &[bool]) -> Result<usize, String> {
        let freed = LOG.with(|l| std::mem::take(&mut l.borrow_mut().freed));
        for &id in &freed {
            let Some(o) = self.objs.get_mut(id as usize) else {
                fail!("a cell that never held an object was freed (id {id})");
            };
            ensure!(!o.freed, "object {id} was freed twice");
            ensure!(!reach[id as usize], "object {id} was freed although it is reachable");
            o.freed = true;
            o.refs = [NIL; 4];
            o.wide = None;
            match self.held.remove(&(o.at as usize)) {
                Some(h) if h as u64 == id => {}
                h => fail!("object {id} was freed in a cell held by {h:?}"),
            }
        }
        self.freed += freed.len();
        Ok(freed.len())
    }

    /// Whether the roots reach some young object through old ones only.
    fn through_old(&self, reach: &[bool]) -> bool {
        let mut seen = vec![false; self.objs.len()];
        let mut todo: Vec<u32> = self.roots.iter().copied().filter(|&r| !self.is_old(r)).collect();
        while let Some(x) = todo.pop() {
            if std::mem::replace(&mut seen[x as usize], true) {
                continue;
            }
            let o = &self.objs[x as usize];
            for &y in o.refs.iter().chain(o.wide.iter().flatten()) {
                if y != NIL && !seen[y as usize] && !self.is_old(y) {
                    todo.push(y);
                }
            }
        }
        (0..self.objs.len()).any(|i| reach[i] && !seen[i] && !self.is_old(i as u32))
    }

    /// One collection at a safepoint.
    fn collect(&mut self, force: bool, cx: &mut Cx) -> R {
        let reach = self.reach(self.roots.iter().copied());
        self.intact(&reach)?;
        let (minor0, major0) = (self.heap.minor_gc_count(), self.heap.major_gc_count());
        let (old0, limit0) = (self.heap.old_count(), self.heap.old_objects_limit());
        let old: Vec<u32> = (0..self.objs.len() as u32).filter(|&i| self.is_old(i)).collect();
        let kept_by_old = self.reach(self.roots.iter().copied().chain(old.iter().copied()));
        let through_old = !self.account && self.through_old(&reach);
        self.forced |= force;
        alloc::request_gc(force);
        ensure!(!self.account || self.requested(), "a requested collection is not pending");
        let others = self.word.load(Ordering::Relaxed) & !0xff;
        let roots = Roots(self.roots.iter().map(|&r| self.ptr(r)).collect());
        self.heap.gc(&roots);
        self.trouble()?;
        let count = self.freed(&reach)?;
        self.intact(&reach)?;
        let lanes = self.word.load(Ordering::Relaxed);
        if self.account {
            same!(lanes & !0xff, others, "the other lanes of the poll word after a collection");
        }
        if !self.heap.gc_enabled {
            same!(count, 0, "objects freed while collection is disabled");
            if self.account {
                same!(self.heap.minor_gc_count() - minor0, 0, "minor collections while disabled");
                same!(self.heap.major_gc_count() - major0, 0, "full collections while disabled");
                same!(self.requested(), false, "request pending after it was voided");
            }
            return Ok(());
        }
        for o in &mut self.objs {
            o.seen = o.seen.saturating_add(1);
        }
        let minor = self.heap.minor_gc_count() - minor0;
        let major = self.heap.major_gc_count() - major0;
        ensure!(minor + major == 1, "one collection was counted as {minor} minor and {major} full ones");
        if minor == 1 {
            self.run_of_minors += 1;
            if through_old {
                cx.nontrivial();
                cx.label("minor collection with young objects behind old ones");
            }
        } else {
            self.run_of_minors = 0;
        }
        if !self.account {
            self.forced = false;
            return Ok(());
        }
        let forced = std::mem::take(&mut self.forced);
        if forced {
            ensure!(major == 1, "a full collection was asked for and a minor one ran");
        } else if !self.heap.allow_full_mark() {
            ensure!(minor == 1, "a full collection ran although full marking is denied");
        } else {
            ensure!(self.run_of_minors <= 64, "{} minor collections in a row", self.run_of_minors);
            ensure!(old0 < limit0 || major == 1, "{old0} old objects, limit {limit0}, and only a minor collection");
            ensure!(
                minor == 1 || old0 >= limit0 || self.since_major >= 32,
                "a full collection ran that nothing asked for ({old0} old objects, limit {limit0})"
            );
        }
        self.since_major = if major == 1 { 0 } else { self.since_major + 1 };
        self.reclaimed(major == 1, &reach, &kept_by_old, &old, cx)?;
        same!(self.requested(), self.stress, "request pending after a collection");
        if self.profile_on {
            self.profile += 1;
            let recs = self.heap.profile_records();
            same!(recs.len(), self.profile, "profile records");
            let r = recs.last().unwrap();
            same!(r.major, major == 1, "kind in the profile");
            same!(r.heap_use_size, self.held.len() * CELL, "bytes in use in the profile");
            same!(r.heap_total_objects, self.heap.available_slots(), "slots in the profile");
            same!(r.heap_total_size, self.heap.available_slots() * CELL, "bytes in the profile");
        } else {
            same!(self.heap.profile_records().len(), self.profile, "profile records");
        }
        same!(self.heap.live_count(), self.held.len(), "live objects after a collection");
        if major == 1 {
            ensure!(
                self.heap.old_objects_limit() > self.heap.old_count(),
                "the limit of old objects is reached right after a full collection"
            );
        }
        self.counters()
    }

    /// Exactly the garbage is gone.
    fn reclaimed(&self, major: bool, reach: &[bool], kept: &[bool], old: &[u32], cx: &mut Cx) -> R {
        for (i, o) in self.objs.iter().enumerate() {
            if major {
                ensure!(reach[i] || o.freed, "object {i} is unreachable and survived a full collection");
            } else {
                ensure!(
                    kept[i] || o.freed,
                    "object {i}, unreachable even from old objects, survived a minor collection"
                );
                ensure!(
                    !o.freed || !old.contains(&(i as u32)) || old.len() > 64,
                    "old object {i} was freed by a minor collection"
                );
            }
        }
        if major && old.iter().any(|&i| self.objs[i as usize].freed) {
            cx.nontrivial();
            cx.label("full collection frees old objects");
        }
        Ok(())
    }

    /// The counters, between collections.
    fn counters(&mut self) -> R {
        let h = &self.heap;
        same!(h.total_allocated(), self.objs.len(), "objects allocated");
        same!(h.total_freed(), self.freed, "objects freed");
        same!(h.total_gc_counter(), h.minor_gc_count() + h.major_gc_count(), "collections");
        same!(
            h.available_slots() - h.allocatable_slots(),
            self.held.len(),
            "slots in use (available minus allocatable)"
        );
        ensure!(h.free_count() <= h.allocatable_slots(), "more free slots than allocatable ones");
        let old = (0..self.objs.len() as u32).filter(|&i| self.is_old(i)).count();
        same!(h.old_count(), old, "old objects");
        ensure!(h.remembered_count() <= old, "{} remembered objects, {old} old ones", h.remembered_count());
        same!(
            h.total_allocated_pages() as i64 - h.total_freed_pages() as i64,
            h.page_count() as i64,
            "pages in service (allocated minus freed)"
        );
        ensure!(h.total_freed_pages() >= self.pages_freed, "the count of freed pages went back");
        self.pages_freed = h.total_freed_pages();
        let span = if self.hi == 0 { 1 } else { (self.hi >> 18) - (self.lo >> 18) + 1 };
        same!(h.page_count() + h.empty_page_count(), span, "pages in service or empty");
        Ok(())
    }
}

/// How a history is sized.
struct Shape {
    ops: u64,
    collect: u32,
    bulk: &'static [usize],
    roots: usize,
}

const GRAPHS: Shape = Shape { ops: 220, collect: 22, bulk: &[1, 2, 5, 9, 63, 64, 65, 130], roots: 12 };
const PAGES: Shape =
    Shape { ops: 70, collect: 16, bulk: &[1, 7, 64, 700, 3900, 4031, 4032, 4033, 8100], roots: 30 };

fn history(src: &mut Src, cx: &mut Cx, account: bool, shape: &Shape) -> R {
    let mut w = World::new(account);
    let mut ops = 0;
    while ops < 4 * shape.ops && src.more(shape.ops) {
        ops += 1;
        src.begin();
        let r = step(&mut w, src, cx, shape);
        src.end();
        r?;
        if account && src.chance(1, 8) {
            w.counters()?;
        }
    }
    let reach = w.reach(w.roots.iter().copied());
    w.intact(&reach)?;
    if w.heap.total_freed_pages() > 0 {
        cx.label("page salvaged");
        if account || w.salvaged_in_use {
            cx.nontrivial();
        }
    }
    w.sound = true;
    Ok(())
}

fn step(w: &mut World, src: &mut Src, cx: &mut Cx, shape: &Shape) -> R {
    match src.weighted(&[26, 22, 8, shape.collect, 5, 8, 4, if w.account { 6 } else { 1 }, 3]) {
        // a batch of new objects
        0 => {
            let n = if src.chance(3, 4) {
                src.range(1, 8)
            } else {
                src.pick(shape.bulk)
            };
            let how = src.usize(5);
            let inline = src.bool();
            let wide = src.chance(1, 5);
            let shady = src.chance(1, 8);
            let onto = w.pick(src);
            let slot = src.usize(4);
            note!(cx, "{n} new objects, {} onto object {onto}{}{}{}",
                ["dropped", "rooted", "stored", "as a chain", "as a tree"][how],
                if inline { ", inline" } else { "" },
                if wide { ", wide" } else { "" },
                if shady { ", never old" } else { "" });
            let allocatable = w.heap.allocatable_slots();
            let pages = w.heap.page_count();
            let was = w.requested();
            let first = w.objs.len() as u32;
            let mut last = NIL;
            for k in 0..n as u32 {
                let x = w.alloc(inline, !shady, wide)?;
                match how {
                    3 => {
                        if last != NIL {
                            w.store(x, slot, last, false);
                        }
                        last = x;
                    }
                    4 => {
                        if k > 0 {
                            let parent = first + (k - 1) / 4;
                            w.store(parent, ((k - 1) % 4) as usize, x, false);
                        } else {
                            last = x;
                        }
                    }
                    2 if onto != NIL => w.push(onto, x),
                    1 if k < 4 => {
                        if w.roots.len() < shape.roots {
                            w.roots.push(x)
                        } else {
                            let i = (x as usize * 7) % w.roots.len();
                            w.roots[i] = x;
                        }
                    }
                    _ => {}
                }
            }
            if last != NIL {
                if onto != NIL && src.bool() {
                    w.store(onto, slot, last, src.bool());
                } else if w.roots.len() < shape.roots {
                    w.roots.push(last);
                } else {
                    let i = src.usize(w.roots.len());
                    w.roots[i] = last;
                }
            }
            if w.account {
                let added = w.heap.page_count() - pages;
                ensure!(n > allocatable || added == 0, "{n} allocations with {allocatable} allocatable slots opened {added} pages");
                let room = allocatable + added * (w.heap.available_slots() / w.heap.page_count());
                ensure!(n <= room, "{n} allocations in {room} slots");
                ensure!(n <= allocatable || n + 5000 > room, "{added} pages opened for {n} allocations with {allocatable} slots free");
                ensure!(!was || w.requested(), "a pending request was lost by an allocation");
                w.filled += added;
                if w.filled + 1 < 8 && !was && !w.asked {
                    ensure!(!w.requested(), "a collection is requested after {} pages", w.filled);
                }
                let budget = 8.max(w.heap.page_count() / 16) + 1;
                ensure!(w.filled <= budget || w.requested(), "{} pages filled and no collection is requested", w.filled);
            }
            w.salvaged_in_use |= w.heap.total_freed_pages() > 0 && w.heap.page_count() > pages;
        }
        // a store
        1 => {
            let (x, y) = (w.pick(src), w.pick(src));
            if x != NIL {
                let slot = src.usize(4);
                let y = if src.chance(1, 4) { NIL } else { y };
                let bulk = src.chance(1, 4);
                note!(cx, "object {x}[{slot}] = {y}{}", if bulk { " (bulk)" } else { "" });
                w.store(x, slot, y, bulk);
            }
        }
        // a list store
        2 => {
            let (x, y) = (w.pick(src), w.pick(src));
            if x != NIL && y != NIL {
                if src.chance(1, 4) {
                    let keep = src.usize(4);
                    note!(cx, "object {x}.truncate({keep})");
                    w.drop_wide(x, keep);
                } else {
                    note!(cx, "object {x}.push({y})");
                    w.push(x, y);
                }
            }
        }
        // collections
        3 => {
            let force = src.chance(1, 5);
            let times = if src.chance(1, 10) { src.range(2, 5) } else { 1 };
            note!(cx, "{times} x {}", if force { "full collection" } else { "collection" });
            for _ in 0..times {
                w.collect(force, cx)?;
                w.filled = 0;
                w.asked = w.stress;
            }
        }
        // roots
        4 => {
            if !w.roots.is_empty() {
                let i = src.usize(w.roots.len());
                note!(cx, "root {i} (object {}) dropped", w.roots[i]);
                w.roots.swap_remove(i);
            }
        }
        5 => {
            let x = w.pick(src);
            if x != NIL && w.roots.len() < shape.roots {
                note!(cx, "object {x} rooted");
                w.roots.push(x);
            }
        }
        // most roots at once
        6 => {
            let keep = src.usize(w.roots.len() + 1).min(3);
            note!(cx, "all but {keep} roots dropped");
            w.roots.truncate(keep);
        }
        // settings
        7 => match src.usize(6) {
            0 => {
                w.heap.gc_enabled = !w.heap.gc_enabled;
                note!(cx, "collection enabled: {}", w.heap.gc_enabled);
            }
            1 => {
                let f = !w.heap.allow_full_mark();
                w.heap.set_allow_full_mark(f);
                note!(cx, "full marking allowed: {f}");
                same!(w.heap.allow_full_mark(), f, "the setting for full marking");
            }
            2 => {
                w.stress = !w.stress;
                w.asked |= w.stress;
                w.heap.set_stress(w.stress);
                note!(cx, "stress: {}", w.stress);
                same!(w.heap.stress(), w.stress, "the setting for stress");
                ensure!(!w.account || !w.stress || w.requested(), "stress requests no collection");
            }
            3 => {
                w.profile_on = !w.profile_on;
                w.heap.set_profile_enabled(w.profile_on);
                note!(cx, "profile: {}", w.profile_on);
            }
            4 => {
                w.heap.clear_profile();
                w.profile = 0;
                note!(cx, "profile cleared");
            }
            _ => {
                let f = src.bool();
                w.heap.set_measure_time(f);
                note!(cx, "time measured: {f}");
                same!(w.heap.measure_time(), f, "the setting for time");
            }
        },
        // other requests on the poll word
        _ => match src.usize(3) {
            0 => poll_flag::set_preempt(),
            1 => poll_flag::set_signal_from_handler(),
            _ => {
                poll_flag::consume_preempt();
            }
        },
    }
    Ok(())
}

/// One long structure among a few others, with collections while it grows and after it shrinks.
fn deep(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(false);
    let top = if src.chance(1, 4) { 120_000 } else { 9_000 };
    let n = src.range(33, top);
    let slot = src.usize(4);
    let kind = src.usize(3);
    note!(cx, "a structure of {n} objects, kind {kind}");
    let every = src.range(1, 4) * n / 4 + 1;
    let anchor = w.alloc(false, true, true)?;
    w.roots.push(anchor);
    for _ in 0..src.usize(5) {
        w.collect(false, cx)?;
    }
    let mut last = NIL;
    for i in 0..n {
        let x = w.alloc(i % 3 == 0, true, kind == 2)?;
        if last != NIL {
            match kind {
                // the newest points to the older ones
                0 => w.store(x, slot, last, false),
                // the older ones point to the newest
                1 => w.store(last, slot, x, false),
                _ => {
                    w.push(last, x);
                    w.store(x, slot, last, true);
                }
            }
        }
        if kind == 0 || last == NIL {
            w.store(anchor, 0, x, false);
        }
        last = x;
        if (i + 1) % every == 0 {
            w.collect(src.bool(), cx)?;
        }
    }
    for _ in 0..src.range(1, 5) {
        w.collect(src.chance(1, 3), cx)?;
    }
    // cut it somewhere
    let cut = src.usize(n) as u32 + 1;
    for k in 0..4 {
        w.store(cut, k, NIL, false);
    }
    w.drop_wide(cut, 0);
    for _ in 0..src.range(1, 3) {
        w.collect(src.bool(), cx)?;
    }
    cx.nontrivial();
    w.sound = true;
    Ok(())
}

pub fn safety_graphs(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, false, &GRAPHS)
}
pub fn safety_pages(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, false, &PAGES)
}
pub fn safety_deep(src: &mut Src, cx: &mut Cx) -> R {
    deep(src, cx)
}
pub fn account_graphs(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, true, &GRAPHS)
}
pub fn account_pages(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, true, &PAGES)
}
