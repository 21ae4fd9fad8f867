//! Capacity, allocation layout and element addresses of the unordered containers.

use crate::common::*;
use hashbrown::{HashMap, HashSet, HashTable};
use pbt::{Cx, R, Src, ensure, note, same};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// Passes everything on to the system allocator and, while switched on,
/// remembers the layout each block was requested with.
struct Checked;

const SLOTS: usize = 512;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static BAD: Cell<bool> = const { Cell::new(false) };
    static TAB: [Cell<(usize, usize, usize)>; SLOTS] = const { [const { Cell::new((0, 0, 0)) }; SLOTS] };
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            COUNT.with(|c| c.set(c.get() + 1));
            TAB.with(|t| {
                if let Some(s) = t.iter().find(|s| s.get().0 == 0) {
                    s.set((p as usize, l.size(), l.align()));
                }
            });
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.try_with(|o| o.get()).unwrap_or(false) {
            TAB.with(|t| {
                if let Some(s) = t.iter().find(|s| s.get().0 == p as usize) {
                    if (s.get().1, s.get().2) != (l.size(), l.align()) {
                        BAD.with(|b| b.set(true));
                    }
                    s.set((0, 0, 0));
                }
            });
        }
        unsafe { System.dealloc(p, l) }
    }
}

#[global_allocator]
static GLOBAL: Checked = Checked;

fn watch(on: bool) {
    ON.with(|o| o.set(on));
}

fn allocations() -> u64 {
    COUNT.with(|c| c.get())
}

fn forget_all() {
    watch(false);
    BAD.with(|b| b.set(false));
    TAB.with(|t| t.iter().for_each(|s| s.set((0, 0, 0))));
}

trait Elem: Clone + Debug + PartialEq + 'static {
    fn make(x: u64) -> Self;
    fn id(&self) -> u64;
}

macro_rules! elem {
    ($t:ty, $make:expr, $id:expr) => {
        impl Elem for $t {
            fn make(x: u64) -> Self {
                let f: fn(u64) -> $t = $make;
                f(x)
            }
            fn id(&self) -> u64 {
                let f: fn(&$t) -> u64 = $id;
                f(self)
            }
        }
    };
}

#[derive(Clone, Debug, PartialEq)]
#[repr(align(16))]
struct A16(u64);
#[derive(Clone, Debug, PartialEq)]
#[repr(align(32))]
struct A32(u8);
#[derive(Clone, Debug, PartialEq)]
#[repr(align(128))]
struct A128(u64);
#[derive(Clone, Debug, PartialEq)]
#[repr(C, packed)]
struct Three([u8; 3]);
#[derive(Clone, Debug, PartialEq)]
#[repr(align(64))]
struct Z64;

elem!((), |_| (), |_| 0);
elem!(Z64, |_| Z64, |_| 0);
elem!(u8, |x| x as u8, |x| *x as u64);
elem!(u16, |x| x as u16, |x| *x as u64);
elem!(u32, |x| x as u32, |x| *x as u64);
elem!(u64, |x| x, |x| *x);
elem!(Three, |x| Three([x as u8, (x >> 8) as u8, 0]), |x| x.0[0] as u64 | (x.0[1] as u64) << 8);
elem!([u64; 5], |x| [x, !x, x, x, x], |x| x[0]);
elem!(A16, |x| A16(x), |x| x.0);
elem!(A32, |x| A32(x as u8), |x| x.0 as u64);
elem!(A128, |x| A128(x), |x| x.0);
elem!(String, |x| format!("element {x}"), |x| x[8..].parse().unwrap());

/// Runs a step with the allocator watching; gives the number of allocations made.
fn watched<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let before = allocations();
    watch(true);
    let r = f();
    watch(false);
    (r, allocations() - before)
}

fn layout_of<T: Elem>(src: &mut Src, cx: &mut Cx, name: &str, limit: u64) -> R {
    type Tab<T> = HashTable<T, (), (), ()>;
    forget_all();
    let mode = src.below(4);
    // distinct elements share hashes in the later modes
    let hash = move |x: &T| -> u64 {
        let i = x.id();
        match mode {
            0 => i.wrapping_mul(0x9E37_79B9_7F4A_7C15),
            1 => i,
            2 => i << 57 | i,
            _ => 0,
        }
    };
    let zst = std::mem::size_of::<T>() == 0;
    let cap0 = src.len(200);
    note!(cx, "table of {name}, hash mode {mode}, with_capacity({cap0})");
    let (mut t, allocs) = watched(|| Tab::<T>::with_capacity(cap0));
    ensure!(t.capacity() >= cap0, "with_capacity({cap0}) gives {}", t.capacity());
    ensure!((allocs > 0) == (cap0 > 0), "with_capacity({cap0}) made {allocs} allocations");
    // what is stored: id -> number of copies
    let mut m: BTreeMap<u64, usize> = BTreeMap::new();
    let mut fresh = 0u64;
    let mut n = 0;
    let mut busy = false;
    let len_of = |m: &BTreeMap<u64, usize>| m.values().sum::<usize>();
    while src.more(8) && n < 40 {
        n += 1;
        src.begin();
        let len = len_of(&m);
        match src.weighted(&[6, 4, 4, 3, 4, 2, 2, 2]) {
            0 | 1 => {
                // use the free room: no allocation, nothing moves
                let room = t.capacity() - len;
                let k = if src.bool() { room } else { src.len(room) };
                let k = k.min(1000usize.saturating_sub(len));
                note!(cx, "insert {k} elements into room for {room}");
                let size = t.allocation_size();
                let place = t.iter().next().map(|x| x as *const T as usize);
                let first = t.iter().next().map(|x| x.id());
                for _ in 0..k {
                    let id = fresh % limit;
                    fresh += 1;
                    let x = T::make(id);
                    let h = hash(&x);
                    let (_, a) = watched(|| {
                        t.insert_unique(h, x, hash);
                    });
                    same!(a, 0, "allocations made by inserting into free room");
                    *m.entry(id).or_default() += 1;
                }
                same!(t.allocation_size(), size, "allocation size after filling the room");
                if let (Some(p), Some(id), false) = (place, first, zst) {
                    ensure!(t.iter().any(|x| x as *const T as usize == p && x.id() == id), "an element moved although there was room");
                }
                busy |= k > 0;
            }
            2 => {
                // one more than fits, or a few
                let k = 1 + src.len(20);
                note!(cx, "insert {k} elements");
                for _ in 0..k {
                    let id = fresh % limit;
                    fresh += 1;
                    let x = T::make(id);
                    let h = hash(&x);
                    watched(|| {
                        t.insert_unique(h, x, hash);
                    });
                    *m.entry(id).or_default() += 1;
                }
            }
            3 => {
                let k = src.len(150);
                note!(cx, "reserve({k})");
                let had = t.capacity();
                let (_, a) = watched(|| t.reserve(k, hash));
                ensure!(t.capacity() >= len + k, "reserve({k}) with {len} elements left capacity {}", t.capacity());
                if had >= len + k {
                    same!(a, 0, "allocations made by reserving room that is there");
                }
            }
            4 => {
                // removals, lookups and updates leave the others where they are
                let k = src.len(len);
                note!(cx, "remove {k} elements");
                let size = t.allocation_size();
                for _ in 0..k {
                    let at: BTreeMap<usize, u64> = if zst { BTreeMap::new() } else { t.iter().map(|x| (x as *const T as usize, x.id())).collect() };
                    let i = src.usize(m.len());
                    let id = *m.keys().nth(i).unwrap();
                    let h = hash(&T::make(id));
                    let gone = match t.find_entry(h, |x, _, _| Ok(x.id() == id), &mut (), &mut ()) {
                        Ok(Ok(o)) => {
                            let p = o.get() as *const T as usize;
                            ensure!(p % std::mem::align_of::<T>() == 0, "an element is not aligned");
                            let (x, _) = o.remove();
                            same!(x.id(), id, "removed element");
                            p
                        }
                        _ => return Err(format!("element {id} is not found")),
                    };
                    let c = m.get_mut(&id).unwrap();
                    *c -= 1;
                    if *c == 0 {
                        m.remove(&id);
                    }
                    if !zst && at.len() < 70 {
                        let now: BTreeMap<usize, u64> = t.iter().map(|x| (x as *const T as usize, x.id())).collect();
                        let want: BTreeMap<usize, u64> = at.into_iter().filter(|x| x.0 != gone).collect();
                        same!(now, want, "places of the other elements after a removal");
                    }
                }
                same!(t.allocation_size(), size, "allocation size after removals");
                busy |= k > 0;
            }
            5 => {
                let k = src.len(200);
                let fit = src.bool();
                note!(cx, "shrink fit={fit} to {k}");
                let before = (t.capacity(), t.allocation_size());
                watched(|| if fit { t.shrink_to_fit(hash) } else { t.shrink_to(k, hash) });
                ensure!(t.capacity() >= len, "capacity {} after shrinking {len} elements", t.capacity());
                ensure!(t.allocation_size() <= before.1, "shrinking enlarged the allocation");
                if !fit {
                    ensure!(t.capacity() >= k.min(before.0), "shrink_to({k}) left capacity {}", t.capacity());
                }
                if fit && len == 0 {
                    same!(t.capacity(), 0, "capacity of a shrunk empty table");
                    same!(t.allocation_size(), 0, "allocation of a shrunk empty table");
                }
                if fit && len > 0 {
                    // the smallest table with room for this many
                    let least = Tab::<T>::with_capacity(len);
                    same!(t.allocation_size(), least.allocation_size(), "allocation of a shrunk table of {len}");
                }
            }
            6 => {
                let before = (t.capacity(), t.allocation_size());
                note!(cx, "clear");
                let (_, a) = watched(|| t.clear());
                same!(a, 0, "allocations made by clear");
                same!(t.allocation_size(), before.1, "allocation size after clear");
                ensure!(t.capacity() >= before.0, "clear gave up capacity");
                same!(t.iter().count(), 0, "elements left by clear");
                m.clear();
            }
            _ => {
                let size = std::mem::size_of::<T>().max(1);
                let huge = src.pick(&[
                    usize::MAX,
                    usize::MAX - 1,
                    usize::MAX / 8,
                    usize::MAX / 8 + 1,
                    isize::MAX as usize,
                    isize::MAX as usize / 8 * 7 + 1,
                    isize::MAX as usize / size,
                    usize::MAX / size,
                ]);
                // anything below this might be granted
                if huge as u128 * size as u128 >= isize::MAX as u128 / 2 || size == 1 && huge >= isize::MAX as usize / 2 {
                    note!(cx, "ask for {huge}");
                    let r = pbt::catch(|| {
                        if src.bool() {
                            t.reserve(huge, hash);
                        } else {
                            drop(Tab::<T>::with_capacity(huge));
                        }
                    });
                    watch(false);
                    ensure!(r.is_err(), "a request for room for {huge} elements of {size} bytes was granted");
                }
            }
        }
        src.end();
        let len = len_of(&m);
        same!(t.len(), len, "len");
        ensure!(t.capacity() >= len, "capacity {} below the length {len}", t.capacity());
        ensure!(t.allocation_size() > 0 || t.capacity() == 0, "allocation size {} with capacity {}", t.allocation_size(), t.capacity());
        if !zst {
            ensure!(t.allocation_size() >= t.capacity() * std::mem::size_of::<T>(), "allocation of {} bytes for {} elements", t.allocation_size(), t.capacity());
        }
        let mut now: BTreeMap<u64, usize> = BTreeMap::new();
        for x in t.iter() {
            ensure!(x as *const T as usize % std::mem::align_of::<T>() == 0, "an element is not aligned");
            same!(*x, T::make(x.id()), "element");
            *now.entry(x.id()).or_default() += 1;
        }
        same!(now, m, "contents");
        for id in m.keys().take(40) {
            let h = hash(&T::make(*id));
            let r = t.find(h, |x, _, _| Ok(x.id() == *id), &mut (), &mut ());
            ensure!(matches!(r, Ok(Some(_))), "element {id} is not found");
        }
        ensure!(!BAD.with(|b| b.get()), "memory was given back with another layout than it was requested with");
    }
    let copy = watched(|| t.clone()).0;
    same!(copy.len(), t.len(), "length of the copy");
    same!(copy.iter().map(|x| x.id()).sum::<u64>(), t.iter().map(|x| x.id()).sum::<u64>(), "the copy");
    watched(|| drop(copy));
    watched(|| drop(t));
    ensure!(!BAD.with(|b| b.get()), "memory was given back with another layout than it was requested with");
    forget_all();
    if busy {
        cx.nontrivial();
    }
    Ok(())
}

pub fn layouts(src: &mut Src, cx: &mut Cx) -> R {
    match src.below(12) {
        0 => layout_of::<u64>(src, cx, "u64", 100_000),
        1 => layout_of::<u8>(src, cx, "u8", 200),
        2 => layout_of::<u16>(src, cx, "u16", 60_000),
        3 => layout_of::<u32>(src, cx, "u32", 100_000),
        4 => layout_of::<Three>(src, cx, "three bytes", 60_000),
        5 => layout_of::<[u64; 5]>(src, cx, "[u64; 5]", 100_000),
        6 => layout_of::<A16>(src, cx, "16-aligned", 100_000),
        7 => layout_of::<A32>(src, cx, "32-aligned", 200),
        8 => layout_of::<A128>(src, cx, "128-aligned", 100_000),
        9 => layout_of::<()>(src, cx, "()", 1),
        10 => layout_of::<Z64>(src, cx, "64-aligned of no size", 1),
        _ => layout_of::<String>(src, cx, "String", 100_000),
    }
}

/// The map and the set keep the same promises.
pub fn maps(src: &mut Src, cx: &mut Cx) -> R {
    type Map = HashMap<Key, Val, Vm, Gl, Fault, Pass>;
    type Set = HashSet<Key, Vm, Gl, Fault, Pass>;
    reset();
    let u = Universe::small(src, 300);
    let (mut e, mut g) = ctx();
    let cap0 = src.len(100);
    note!(cx, "universe {} mode {}, with_capacity({cap0})", u.size, u.mode);
    let mut map = Map::with_capacity_and_hasher(cap0, Pass);
    let mut set = Set::with_capacity_and_hasher(cap0, Pass);
    ensure!(map.capacity() >= cap0, "map with_capacity({cap0}) gives {}", map.capacity());
    ensure!(set.capacity() >= cap0, "set with_capacity({cap0}) gives {}", set.capacity());
    let mut present: Vec<u32> = vec![];
    let mut fresh = 0u32;
    let mut n = 0;
    let mut busy = false;
    while src.more(6) && n < 30 {
        n += 1;
        src.begin();
        match src.below(7) {
            0 | 1 | 2 => {
                let room = map.capacity().min(set.capacity()) - present.len();
                let k = if src.bool() { room } else { src.len(room) };
                let k = k.min(400usize.saturating_sub(present.len()));
                note!(cx, "insert {k} into room for {room}");
                let sizes = (map.allocation_size(), set.allocation_size());
                let at = map.iter().next().map(|(k, _)| (k.serial(), k as *const Key as usize));
                for _ in 0..k {
                    let c = u.core(fresh);
                    map.insert(Key::new(c), Val::new(fresh), &mut e, &mut g).map_err(|f| format!("{f:?}"))?;
                    set.insert(Key::new(c), &mut e, &mut g).map_err(|f| format!("{f:?}"))?;
                    present.push(fresh);
                    fresh += 1;
                }
                same!((map.allocation_size(), set.allocation_size()), sizes, "allocation sizes after filling the room");
                if let Some((s, p)) = at {
                    let now = map.iter().find(|(k, _)| k.serial() == s).map(|(k, _)| k as *const Key as usize);
                    same!(now, Some(p), "place of a key after filling the room");
                }
                busy |= k > 0;
            }
            3 => {
                let k = src.len(100);
                note!(cx, "reserve({k})");
                map.reserve(k);
                set.reserve(k);
                ensure!(map.capacity() >= present.len() + k, "map capacity {} after reserve({k}) with {}", map.capacity(), present.len());
                ensure!(set.capacity() >= present.len() + k, "set capacity {} after reserve({k}) with {}", set.capacity(), present.len());
            }
            4 => {
                let k = src.len(100);
                let fit = src.bool();
                note!(cx, "shrink fit={fit} to {k}");
                let before = (map.capacity(), set.capacity(), map.allocation_size(), set.allocation_size());
                if fit {
                    map.shrink_to_fit();
                    set.shrink_to_fit();
                } else {
                    map.shrink_to(k);
                    set.shrink_to(k);
                    ensure!(map.capacity() >= k.min(before.0), "map shrink_to({k}) left {}", map.capacity());
                    ensure!(set.capacity() >= k.min(before.1), "set shrink_to({k}) left {}", set.capacity());
                }
                ensure!(map.allocation_size() <= before.2 && set.allocation_size() <= before.3, "shrinking enlarged an allocation");
                if fit {
                    let least = Map::with_capacity_and_hasher(present.len(), Pass);
                    same!(map.allocation_size(), least.allocation_size(), "allocation of a shrunk map");
                }
            }
            5 => {
                let k = src.len(present.len());
                note!(cx, "remove {k}");
                let at: BTreeMap<u32, usize> = map.iter().map(|(k, _)| (k.core.id, k as *const Key as usize)).collect();
                for _ in 0..k {
                    let i = src.usize(present.len());
                    let id = present.swap_remove(i);
                    ensure!(matches!(map.remove(&u.core(id), &mut e, &mut g), Ok(Some(_))), "k{id} was not in the map");
                    ensure!(matches!(set.remove(&u.core(id), &mut e, &mut g), Ok(true)), "k{id} was not in the set");
                }
                for (k, _) in map.iter() {
                    same!(Some(&(k as *const Key as usize)), at.get(&k.core.id), "place of a key after removals");
                }
                busy |= k > 0;
            }
            _ => {
                let huge = src.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 8, isize::MAX as usize, usize::MAX - 3]);
                let how = src.below(4);
                note!(cx, "ask for {huge}, how {how}");
                let r = pbt::catch(|| match how {
                    0 => map.reserve(huge),
                    1 => set.reserve(huge),
                    2 => drop(Map::with_capacity_and_hasher(huge, Pass)),
                    _ => drop(Set::with_capacity_and_hasher(huge, Pass)),
                });
                ensure!(r.is_err(), "a request for room for {huge} was granted");
            }
        }
        src.end();
        same!((map.len(), set.len()), (present.len(), present.len()), "lengths");
        ensure!(map.capacity() >= map.len() && set.capacity() >= set.len(), "capacity below the length");
        for id in &present {
            let c = u.core(*id);
            ensure!(matches!(map.get(&c, &mut e, &mut g), Ok(Some(v)) if v.v == *id), "k{id} is lost in the map");
            ensure!(matches!(set.contains(&c, &mut e, &mut g), Ok(true)), "k{id} is lost in the set");
        }
    }
    if busy {
        cx.nontrivial();
    }
    Ok(())
}
