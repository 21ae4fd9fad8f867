//! Handles generated over a population of recording objects.

use monoruby_attr::monoruby_object;
use pbt::{Cx, R, Src, ensure, note, same};
use std::cell::RefCell;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Ev {
    Barrier(u64),
    Ref(u64, &'static str),
    Mut(u64, &'static str),
    Mark(u64),
}

thread_local! {
    static LOG: RefCell<Vec<Ev>> = const { RefCell::new(vec![]) };
}
fn log(e: Ev) {
    LOG.with(|l| l.borrow_mut().push(e));
}
fn taken() -> Vec<Ev> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}

pub struct RValue {
    a: ArrayInner,
    p: ProcInner,
    s: RStringInner,
    b: BucketInner,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Value(u64);

macro_rules! inner {
    ($($name:ident $field:ident $get:ident $get_mut:ident;)*) => {
        $(#[derive(Debug, Default, PartialEq, Clone)]
        pub struct $name { x: u64, items: Vec<u64> })*
        impl Value {
            $(unsafe fn $get(&self) -> &$name {
                log(Ev::Ref(self.0, stringify!($field)));
                unsafe { &(*(self.0 as *const RValue)).$field }
            }
            unsafe fn $get_mut(&mut self) -> &mut $name {
                log(Ev::Mut(self.0, stringify!($field)));
                unsafe { &mut (*(self.0 as *mut RValue)).$field }
            })*
        }
    };
}
inner! {
    ArrayInner a as_array_inner as_array_inner_mut;
    ProcInner p as_proc_inner as_proc_inner_mut;
    RStringInner s as_rstring_inner as_rstring_inner_mut;
    BucketInner b as_bucket_inner as_bucket_inner_mut;
}

impl Value {
    fn id(self) -> u64 {
        self.0
    }
    fn write_barrier_bulk(&mut self) {
        log(Ev::Barrier(self.0));
    }
    fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
        alloc.marked.push(self.0);
        log(Ev::Mark(self.0));
    }
}

pub mod alloc {
    pub struct Allocator<T> {
        pub marked: Vec<u64>,
        pub what: std::marker::PhantomData<T>,
    }
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
}
use alloc::GC;

#[monoruby_object(write_barrier)]
pub struct Array(Value);

#[monoruby_object]
pub struct Proc(Value);

/// A documented handle.
#[monoruby_object]
pub struct RString(Value);

#[monoruby_object( write_barrier )]
pub(crate) struct Bucket(Value);

macro_rules! drive {
    ($src:expr, $cx:expr, $heap:expr, $model:expr, $H:ident, $field:ident, $barrier:expr, $i:expr, $op:expr) => {{
        let addr = &*$heap[$i] as *const RValue as u64;
        let val = Value(addr);
        let mut h = $H::new_unchecked(val);
        ensure!(taken().is_empty(), "making a handle touched the object");
        same!(std::mem::size_of::<$H>(), std::mem::size_of::<Value>(), "size of a handle");
        let copy = h;
        #[allow(clippy::clone_on_copy)]
        let clone = h.clone();
        let name = stringify!($field);
        let reads = |l: &[Ev]| l.iter().all(|e| *e == Ev::Ref(addr, name));
        // A mutable access runs the barrier of this object, if the handle has one.
        let writes = |l: Vec<Ev>| -> R {
            let first = l.iter().position(|e| matches!(e, Ev::Mut(..)));
            ensure!(first.is_some(), "no mutable access: {l:?}");
            if $barrier {
                // Both happen before the caller gets to store anything, in either order.
                let (b, m) = (l.iter().filter(|e| **e == Ev::Barrier(addr)).count(), l.iter().filter(|e| **e == Ev::Mut(addr, name)).count());
                ensure!(b >= m && b + m == l.len(), "barriers and accesses of {addr:#x}: {l:?}");
            } else {
                ensure!(l.iter().all(|e| *e == Ev::Mut(addr, name)), "events of an unbarriered write: {l:?}");
            }
            Ok(())
        };
        let m = &mut $model[$i];
        match $op {
            0 => {
                same!((h.x, h.items.clone()), m.clone(), "contents read through the handle");
                let l = taken();
                ensure!(!l.is_empty() && reads(&l), "events of a read: {l:?}");
            }
            1 => {
                h.x = m.0 + 1;
                m.0 += 1;
                writes(taken())?;
            }
            2 => {
                h.items.push(m.0);
                m.1.push(m.0);
                writes(taken())?;
            }
            3 => {
                let inner: &mut <$H as std::ops::Deref>::Target = &mut h;
                let same_place = std::ptr::eq(inner, unsafe { &raw const (*(addr as *const RValue)).$field });
                ensure!(same_place, "the handle reaches another place");
                inner.x ^= 5;
                inner.items.clear();
                m.0 ^= 5;
                m.1.clear();
                writes(taken())?;
            }
            4 => {
                let v: Value = h.into();
                same!(v, val, "the handle as a value");
                same!(copy.as_val(), val, "as_val of a copy");
                same!(clone.as_val(), val, "as_val of a clone");
                same!(h.as_ptr() as u64, addr, "as_ptr");
                same!(taken(), vec![], "events of a conversion");
            }
            5 => {
                let mut a = alloc::Allocator { marked: vec![], what: std::marker::PhantomData };
                h.mark(&mut a);
                same!(a.marked, vec![addr], "objects marked");
                same!(taken(), vec![Ev::Mark(addr)], "events of marking");
            }
            6 => {
                // two handles of one object
                let mut other = copy;
                other.x += 3;
                m.0 += 3;
                writes(taken())?;
                same!(h.x, m.0, "a write through one handle seen through another");
                let l = taken();
                ensure!(reads(&l), "events of a read: {l:?}");
            }
            7 => {
                // iteration through the handle
                let n = h.items.iter().count();
                same!(n, m.1.len(), "length");
                let l = taken();
                ensure!(reads(&l), "events of a read: {l:?}");
                for x in h.items.iter_mut() {
                    *x += 1;
                }
                m.1.iter_mut().for_each(|x| *x += 1);
                writes(taken())?;
            }
            _ => {
                let r: &<$H as std::ops::Deref>::Target = &h;
                ensure!(std::ptr::eq(r, unsafe { &raw const (*(addr as *const RValue)).$field }), "the handle reaches another place");
                let l = taken();
                ensure!(reads(&l), "events of a read: {l:?}");
            }
        }
    }};
}

pub fn handles(src: &mut Src, cx: &mut Cx) -> R {
    taken();
    let n = 1 + src.usize(4);
    let fresh = || Box::new(RValue { a: Default::default(), p: Default::default(), s: Default::default(), b: Default::default() });
    let heap: Vec<Box<RValue>> = (0..n).map(|_| fresh()).collect();
    let mut model = vec![vec![(0u64, Vec::<u64>::new()); n]; 4];
    let mut seen = (false, false);
    while src.more(20) {
        src.begin();
        let (kind, i, op) = (src.below(4), src.usize(n), src.below(9));
        note!(cx, "handle {kind} object {i} operation {op}");
        let write = matches!(op, 1 | 2 | 3 | 6 | 7);
        let b = kind == 0 || kind == 3;
        seen.0 |= write && b;
        seen.1 |= write && !b;
        match kind {
            0 => drive!(src, cx, heap, model[0], Array, a, true, i, op),
            1 => drive!(src, cx, heap, model[1], Proc, p, false, i, op),
            2 => drive!(src, cx, heap, model[2], RString, s, false, i, op),
            _ => drive!(src, cx, heap, model[3], Bucket, b, true, i, op),
        }
        src.end();
    }
    for i in 0..n {
        let h = &heap[i];
        let got = [(h.a.x, h.a.items.clone()), (h.p.x, h.p.items.clone()), (h.s.x, h.s.items.clone()), (h.b.x, h.b.items.clone())];
        for k in 0..4 {
            same!(got[k], model[k][i], "final contents of object {i}");
        }
    }
    if seen == (true, true) {
        cx.nontrivial();
    }
    Ok(())
}
