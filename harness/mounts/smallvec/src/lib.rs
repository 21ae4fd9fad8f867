//! A stand-in for the vendored `smallvec`: the same interface (as far as it is used) and the same
//! published layout - capacity, then either the inline bytes or pointer and length.

use std::mem::{ManuallyDrop, MaybeUninit};
use std::ops::{Deref, DerefMut};

pub const OFFSET_CAPA: usize = 0;
pub const OFFSET_INLINE: usize = 8;
pub const OFFSET_HEAP_PTR: usize = 8;
pub const OFFSET_HEAP_LEN: usize = 16;

pub unsafe trait Array {
    type Item;
    const CAP: usize;
}

unsafe impl<T, const N: usize> Array for [T; N] {
    type Item = T;
    const CAP: usize = N;
}

#[repr(C)]
struct Heap<T> {
    ptr: *mut T,
    len: usize,
}

impl<T> Clone for Heap<T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Heap<T> {}

#[repr(C)]
union Data<A: Array> {
    inline: ManuallyDrop<MaybeUninit<A>>,
    heap: Heap<A::Item>,
}

/// `capacity` is the length while the elements are inline.
#[repr(C)]
pub struct SmallVec<A: Array> {
    capacity: usize,
    data: Data<A>,
}

unsafe impl<A: Array> Send for SmallVec<A> where A::Item: Send {}

impl<A: Array> SmallVec<A> {
    pub fn new() -> Self {
        SmallVec { capacity: 0, data: Data { inline: ManuallyDrop::new(MaybeUninit::uninit()) } }
    }
    pub fn with_capacity(n: usize) -> Self {
        let mut v = Self::new();
        v.reserve_exact(n);
        v
    }
    pub fn from_vec(vec: Vec<A::Item>) -> Self {
        if vec.capacity() <= A::CAP {
            let mut v = Self::new();
            let mut vec = vec;
            unsafe {
                let len = vec.len();
                vec.set_len(0);
                std::ptr::copy_nonoverlapping(vec.as_ptr(), v.data_ptr(), len);
                v.set_len(len);
            }
            v
        } else {
            let mut vec = ManuallyDrop::new(vec);
            SmallVec { capacity: vec.capacity(), data: Data { heap: Heap { ptr: vec.as_mut_ptr(), len: vec.len() } } }
        }
    }
    pub fn spilled(&self) -> bool {
        self.capacity > A::CAP
    }
    pub fn inline_size(&self) -> usize {
        A::CAP
    }
    pub fn capacity(&self) -> usize {
        if self.spilled() { self.capacity } else { A::CAP }
    }
    pub fn len(&self) -> usize {
        if self.spilled() { unsafe { self.data.heap.len } } else { self.capacity }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    fn data_ptr(&mut self) -> *mut A::Item {
        if self.spilled() { unsafe { self.data.heap.ptr } } else { unsafe { std::ptr::addr_of_mut!(self.data.inline) as *mut A::Item } }
    }
    fn data_const(&self) -> *const A::Item {
        if self.spilled() { unsafe { self.data.heap.ptr } } else { unsafe { std::ptr::addr_of!(self.data.inline) as *const A::Item } }
    }
    pub fn as_ptr(&self) -> *const A::Item {
        self.data_const()
    }
    pub fn as_mut_ptr(&mut self) -> *mut A::Item {
        self.data_ptr()
    }
    pub fn as_slice(&self) -> &[A::Item] {
        self
    }
    pub fn as_mut_slice(&mut self) -> &mut [A::Item] {
        self
    }
    pub unsafe fn set_len(&mut self, len: usize) {
        assert!(len <= self.capacity());
        if self.spilled() { self.data.heap.len = len } else { self.capacity = len }
    }
    pub fn reserve(&mut self, n: usize) {
        let want = self.len() + n;
        if want > self.capacity() {
            self.grow(want.next_power_of_two());
        }
    }
    pub fn reserve_exact(&mut self, n: usize) {
        let want = self.len() + n;
        if want > self.capacity() {
            self.grow(want);
        }
    }
    pub fn grow(&mut self, cap: usize) {
        let len = self.len();
        assert!(cap >= len);
        if cap <= A::CAP {
            return;
        }
        let mut vec: Vec<A::Item> = Vec::with_capacity(cap);
        unsafe {
            std::ptr::copy_nonoverlapping(self.data_const(), vec.as_mut_ptr(), len);
            if self.spilled() {
                drop(Vec::from_raw_parts(self.data.heap.ptr, 0, self.capacity));
            }
        }
        let mut vec = ManuallyDrop::new(vec);
        self.capacity = vec.capacity();
        self.data.heap = Heap { ptr: vec.as_mut_ptr(), len };
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn push(&mut self, x: A::Item) {
        self.reserve(1);
        unsafe {
            let len = self.len();
            self.data_ptr().add(len).write(x);
            self.set_len(len + 1);
        }
    }
    pub fn pop(&mut self) -> Option<A::Item> {
        let len = self.len();
        if len == 0 {
            return None;
        }
        unsafe {
            self.set_len(len - 1);
            Some(self.data_const().add(len - 1).read())
        }
    }
    pub fn truncate(&mut self, n: usize) {
        while self.len() > n {
            drop(self.pop());
        }
    }
    pub fn clear(&mut self) {
        self.truncate(0)
    }
    pub fn insert(&mut self, i: usize, x: A::Item) {
        let len = self.len();
        assert!(i <= len);
        self.reserve(1);
        unsafe {
            let p = self.data_ptr().add(i);
            std::ptr::copy(p, p.add(1), len - i);
            p.write(x);
            self.set_len(len + 1);
        }
    }
    pub fn remove(&mut self, i: usize) -> A::Item {
        let len = self.len();
        assert!(i < len);
        unsafe {
            let p = self.data_ptr().add(i);
            let x = p.read();
            std::ptr::copy(p.add(1), p, len - i - 1);
            self.set_len(len - 1);
            x
        }
    }
    pub fn swap_remove(&mut self, i: usize) -> A::Item {
        let len = self.len();
        self.swap(i, len - 1);
        self.pop().unwrap()
    }
    pub fn retain<F: FnMut(&mut A::Item) -> bool>(&mut self, mut f: F) {
        let old = std::mem::take(self);
        for mut x in old {
            if f(&mut x) {
                self.push(x);
            }
        }
    }
    pub fn into_vec(self) -> Vec<A::Item> {
        let mut this = ManuallyDrop::new(self);
        unsafe {
            if this.spilled() {
                Vec::from_raw_parts(this.data.heap.ptr, this.data.heap.len, this.capacity)
            } else {
                let len = this.len();
                let mut v = Vec::with_capacity(len);
                std::ptr::copy_nonoverlapping(this.data_ptr() as *const A::Item, v.as_mut_ptr(), len);
                v.set_len(len);
                v
            }
        }
    }
    pub fn drain<R: std::ops::RangeBounds<usize>>(&mut self, r: R) -> Drain<'_, A> {
        use std::ops::Bound::*;
        let len = self.len();
        let start = match r.start_bound() {
            Included(n) => *n,
            Excluded(n) => n + 1,
            Unbounded => 0,
        };
        let end = match r.end_bound() {
            Included(n) => n + 1,
            Excluded(n) => *n,
            Unbounded => len,
        };
        assert!(start <= end && end <= len, "drain out of range");
        let mut out = Vec::with_capacity(end - start);
        unsafe {
            let p = self.data_ptr();
            std::ptr::copy_nonoverlapping(p.add(start), out.as_mut_ptr(), end - start);
            out.set_len(end - start);
            std::ptr::copy(p.add(end), p.add(start), len - end);
            self.set_len(len - (end - start));
        }
        Drain(out.into_iter(), std::marker::PhantomData)
    }
    pub fn insert_many<I: IntoIterator<Item = A::Item>>(&mut self, index: usize, iterable: I) {
        let len = self.len();
        assert!(index <= len, "insert_many out of range");
        let items = ManuallyDrop::new(iterable.into_iter().collect::<Vec<_>>());
        self.reserve(items.len());
        unsafe {
            let p = self.data_ptr().add(index);
            std::ptr::copy(p, p.add(items.len()), len - index);
            std::ptr::copy_nonoverlapping(items.as_ptr(), p, items.len());
            self.set_len(len + items.len());
        }
    }
    pub fn extend_from_slice(&mut self, s: &[A::Item])
    where
        A::Item: Copy,
    {
        self.reserve(s.len());
        unsafe {
            let len = self.len();
            std::ptr::copy_nonoverlapping(s.as_ptr(), self.data_ptr().add(len), s.len());
            self.set_len(len + s.len());
        }
    }
    pub fn insert_from_slice(&mut self, i: usize, s: &[A::Item])
    where
        A::Item: Copy,
    {
        for (k, x) in s.iter().enumerate() {
            self.insert(i + k, *x);
        }
    }
    pub fn from_slice(s: &[A::Item]) -> Self
    where
        A::Item: Copy,
    {
        let mut v = Self::with_capacity(s.len());
        v.extend_from_slice(s);
        v
    }
    pub fn from_elem(x: A::Item, n: usize) -> Self
    where
        A::Item: Clone,
    {
        Self::from_vec(vec![x; n])
    }
    pub fn resize(&mut self, n: usize, x: A::Item)
    where
        A::Item: Clone,
    {
        self.truncate(n);
        if n > self.len() {
            self.reserve(n - self.len());
        }
        while self.len() < n {
            self.push(x.clone());
        }
    }
}

pub struct Drain<'a, A: Array>(std::vec::IntoIter<A::Item>, std::marker::PhantomData<&'a mut A>);
impl<A: Array> Iterator for Drain<'_, A> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<A: Array> DoubleEndedIterator for Drain<'_, A> {
    fn next_back(&mut self) -> Option<A::Item> {
        self.0.next_back()
    }
}
impl<A: Array> ExactSizeIterator for Drain<'_, A> {}

impl<A: Array> Drop for SmallVec<A> {
    fn drop(&mut self) {
        unsafe {
            if self.spilled() {
                drop(Vec::from_raw_parts(self.data.heap.ptr, self.data.heap.len, self.capacity));
            } else {
                std::ptr::drop_in_place(&mut self[..]);
            }
        }
    }
}

impl<A: Array> Default for SmallVec<A> {
    fn default() -> Self {
        Self::new()
    }
}

impl<A: Array> Clone for SmallVec<A>
where
    A::Item: Clone,
{
    fn clone(&self) -> Self {
        let mut v = Self::with_capacity(self.len());
        v.extend(self.iter().cloned());
        v
    }
}

impl<A: Array> Deref for SmallVec<A> {
    type Target = [A::Item];
    fn deref(&self) -> &[A::Item] {
        unsafe { std::slice::from_raw_parts(self.data_const(), self.len()) }
    }
}

impl<A: Array> DerefMut for SmallVec<A> {
    fn deref_mut(&mut self) -> &mut [A::Item] {
        unsafe { std::slice::from_raw_parts_mut(self.data_ptr(), self.len()) }
    }
}

impl<A: Array> Extend<A::Item> for SmallVec<A> {
    fn extend<I: IntoIterator<Item = A::Item>>(&mut self, it: I) {
        for x in it {
            self.push(x);
        }
    }
}

impl<A: Array> FromIterator<A::Item> for SmallVec<A> {
    fn from_iter<I: IntoIterator<Item = A::Item>>(it: I) -> Self {
        let mut v = Self::new();
        v.extend(it);
        v
    }
}

impl<A: Array> IntoIterator for SmallVec<A> {
    type Item = A::Item;
    type IntoIter = std::vec::IntoIter<A::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.into_vec().into_iter()
    }
}

impl<'a, A: Array> IntoIterator for &'a SmallVec<A> {
    type Item = &'a A::Item;
    type IntoIter = std::slice::Iter<'a, A::Item>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}

impl<A: Array> From<Vec<A::Item>> for SmallVec<A> {
    fn from(v: Vec<A::Item>) -> Self {
        Self::from_vec(v)
    }
}

impl<A: Array> From<&[A::Item]> for SmallVec<A>
where
    A::Item: Clone,
{
    fn from(s: &[A::Item]) -> Self {
        s.iter().cloned().collect()
    }
}

impl<A: Array> std::fmt::Debug for SmallVec<A>
where
    A::Item: std::fmt::Debug,
{
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_list().entries(self.iter()).finish()
    }
}

impl<A: Array, B: Array> PartialEq<SmallVec<B>> for SmallVec<A>
where
    A::Item: PartialEq<B::Item>,
{
    fn eq(&self, o: &SmallVec<B>) -> bool {
        self[..] == o[..]
    }
}

impl<A: Array> Eq for SmallVec<A> where A::Item: Eq {}

impl<A: Array> AsRef<[A::Item]> for SmallVec<A> {
    fn as_ref(&self) -> &[A::Item] {
        self
    }
}

#[macro_export]
macro_rules! smallvec {
    ($x:expr; $n:expr) => { $crate::SmallVec::from_elem($x, $n) };
    ($($x:expr),* $(,)?) => {{
        let mut v = $crate::SmallVec::new();
        $(v.push($x);)*
        v
    }};
}
