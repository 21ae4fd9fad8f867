//! C20 and C21: the collector, mounted as it is, over a stand-in for the object cell that
//! records when it is freed.

#![feature(coverage_attribute)]
#![allow(dead_code, unused)]

#[path = "/repo/monoruby/src/alloc.rs"]
mod alloc;
#[path = "/repo/monoruby/src/poll_flag.rs"]
mod poll_flag;

mod heap;
mod malloc;

pub mod value {
    pub mod rvalue {
        pub use crate::RValue;
    }
}

use alloc::{Allocator, GC, GCBox, GCRoot};
use pbt::{Prop, Suite};
use std::cell::RefCell;
use std::ptr::NonNull;

/// The handle type the collector's crash reports mention.
#[derive(Clone, Copy)]
pub struct Value(u64);

impl Value {
    pub fn is_packed_value(&self) -> bool {
        self.0 & 7 != 0 || self.0 == 0
    }
    pub fn id(&self) -> u64 {
        self.0
    }
}

pub const LIVE: u64 = 1;
pub const OLD: u64 = 2;
pub const ARMED: u64 = 4;
pub const PROMOTABLE: u64 = 8;
const AGE: u32 = 8;

/// An object cell: a header that holds either the flags of a live object or the free link, four
/// references, and for some objects a list of further ones.
#[repr(C)]
pub struct RValue {
    pub head: u64,
    pub id: u64,
    pub refs: [*mut RValue; 4],
    pub wide: Option<Box<Vec<*mut RValue>>>,
    pub stamp: u64,
}

pub fn stamp(id: u64) -> u64 {
    id.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ 0x5bd1_e995
}

#[derive(Default)]
pub struct Log {
    /// The ids of the cells freed since the log was taken last.
    pub freed: Vec<u64>,
    /// The first thing that went wrong inside a callback.
    pub bad: Option<String>,
}

thread_local! {
    pub static LOG: RefCell<Log> = RefCell::new(Log::default());
}

fn bad(s: String) {
    LOG.with(|l| {
        l.borrow_mut().bad.get_or_insert(s);
    });
}

impl RValue {
    pub fn new(id: u64, promotable: bool, wide: bool) -> RValue {
        RValue {
            head: LIVE | if promotable { PROMOTABLE } else { 0 },
            id,
            refs: [std::ptr::null_mut(); 4],
            wide: wide.then(|| Box::new(vec![])),
            stamp: stamp(id),
        }
    }
    pub fn ty(&self) -> &'static str {
        "cell"
    }
    pub fn live(&self) -> bool {
        self.head & LIVE != 0
    }
    fn children(&self) -> impl Iterator<Item = *mut RValue> + '_ {
        self.refs
            .iter()
            .copied()
            .chain(self.wide.iter().flat_map(|w| w.iter().copied()))
            .filter(|p| !p.is_null())
    }
}

impl PartialEq for RValue {
    fn eq(&self, other: &Self) -> bool {
        self.id == other.id
    }
}

impl GC<RValue> for RValue {
    fn mark(&self, alloc: &mut Allocator<RValue>) {
        if !self.live() {
            bad(format!("marking reached a freed cell, last holding object {}", self.id));
            return;
        }
        if alloc.gc_check_and_mark(self) {
            return;
        }
        alloc.scan_children(self);
    }
}

impl GCBox for RValue {
    fn free(&mut self) {
        if !self.live() {
            return;
        }
        LOG.with(|l| l.borrow_mut().freed.push(self.id));
        self.wide = None;
        self.stamp = 0;
        self.refs = [std::ptr::null_mut(); 4];
        self.set_next_none();
    }
    fn next(&self) -> Option<NonNull<Self>> {
        if self.head & LIVE != 0 {
            bad(format!("the link of a live cell was followed: object {}", self.id));
            return None;
        }
        NonNull::new(self.head as *mut RValue)
    }
    fn set_next_none(&mut self) {
        self.head = 0;
    }
    fn set_next(&mut self, next: *mut Self) {
        self.head = next as u64;
    }
    fn new_invalid() -> Self {
        RValue { head: 0, id: u64::MAX, refs: [std::ptr::null_mut(); 4], wide: None, stamp: 0 }
    }
    fn mark_children(&self, alloc: &mut Allocator<Self>) {
        if !self.live() {
            bad(format!("the children of a freed cell were marked, last holding object {}", self.id));
            return;
        }
        for c in self.children() {
            unsafe { (*c).mark(alloc) };
        }
    }
    fn is_promotable(&self) -> bool {
        self.head & PROMOTABLE != 0
    }
    fn promote_to_old(&mut self) {
        self.head |= OLD;
    }
    fn age_and_check_promote(&mut self) -> bool {
        let age = ((self.head >> AGE) as u8).saturating_add(1);
        self.head = self.head & !(0xff << AGE) | (age as u64) << AGE;
        age >= alloc::RGENGC_OLD_AGE
    }
    fn arm_barrier(&mut self) {
        self.head |= ARMED;
    }
    fn enter_remembered(&mut self) {
        self.head &= !ARMED;
    }
    fn young_child_exists(&self, alloc: &Allocator<Self>) -> bool {
        self.children().any(|c| !alloc.is_old(unsafe { &*c }))
    }
}

pub struct Roots(pub Vec<*mut RValue>);

impl GC<RValue> for Roots {
    fn mark(&self, alloc: &mut Allocator<RValue>) {
        for &r in &self.0 {
            unsafe { (*r).mark(alloc) };
        }
    }
}

impl GCRoot<RValue> for Roots {}

const ASSUME: &[&str] = &[
    "the stand-in for the object cell follows the collector's contract for RValue: age, old and armed flags in the header, free link in the first word, every store of a reference followed by the write barrier",
    "rustc and the operating system",
];

static PROPS: &[Prop] = &[
    Prop {
        id: "C20",
        rule: "histories of allocations (through the runtime and through the inline path of compiled code), stores, root changes and collections over objects with up to thousands of references; non-trivial: at some minor collection a young object is reachable from the roots through old objects only, or a salvaged page is in use again",
        assumptions: ASSUME,
        level: "exploration",
        suites: &[
            Suite { name: "graphs", cases: 60_000, run: heap::safety_graphs },
            Suite { name: "pages", cases: 4_000, run: heap::safety_pages },
            Suite { name: "deep", cases: 600, run: heap::safety_deep },
        ],
        known: &[],
    },
    Prop {
        id: "C21",
        rule: "the histories of C20 with settings changes, checked for what each collection reclaims and for the counters, and allocations of buffers through the counting global allocator; non-trivial: a full collection reclaims old objects, or a page is salvaged, or a buffer crosses the threshold",
        assumptions: ASSUME,
        level: "exploration",
        suites: &[
            Suite { name: "graphs", cases: 40_000, run: heap::account_graphs },
            Suite { name: "pages", cases: 2_500, run: heap::account_pages },
            Suite { name: "buffers", cases: 60_000, run: malloc::buffers },
        ],
        known: &[],
    },
];

fn main() {
    pbt::main(PROPS)
}
