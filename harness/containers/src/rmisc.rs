//! Fast paths, tombstones, capacity and layout of the ordered map.

use crate::common::*;
use crate::rmap::{Map, P};
use pbt::{Cx, R, Src, ensure, note, same};
use rubymap::{RubyEql, RubyHash, RubyMap};
use std::hash::Hasher;
use std::num::NonZeroU64;

fn content(map: &Map) -> Vec<(u32, u32)> {
    map.iter().map(|(k, v)| (k.core.id, v.v)).collect()
}

/// The equality calls of one operation: only stored keys of equal hash.
fn asked(what: &str) -> R {
    let (log, _) = log_take();
    for (a, b, same_hash) in log {
        ensure!(same_hash, "{what}: k{a} was compared with k{b} although their hashes differ");
    }
    Ok(())
}

/// C05: two maps driven in step, one through the generic operations only.
pub fn fast_paths(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let (mut e, mut g) = ctx();
    let mut a = Map::default();
    let mut b = Map::default();
    note!(cx, "universe of {} keys, hash mode {}", u.size, u.mode);
    let mut next = 0u32;
    let mut n = 0;
    let mut max = 0;
    let mut twins = 0;
    let mean = src.pick(&[14u64, 40, 80]);
    while src.more(mean) && n < 220 {
        src.begin();
        let k = if a.len() > 0 && src.bool() {
            let i = src.usize(a.len());
            a.get_index(i).unwrap().0.core
        } else {
            u.any(src)
        };
        next += 1;
        let v = next;
        let op = src.weighted(&[12, 10, 10, 10, 5, 5, 5, 4, 4, 3, 3, 3, 3, 2]);
        note!(cx, "operation {op} on {k:?} with v{v}");
        macro_rules! ok {
            ($x:expr) => {
                $x.map_err(|f| format!("failed: {f:?}"))?
            };
        }
        match op {
            0..=3 => {
                log_on();
                let x = ok!(a.insert(Key::new(k), Val::new(v), &mut e, &mut g));
                asked("insert")?;
                log_on();
                let mut index = None;
                let y = match op {
                    0 => ok!(b.insert(Key::new(k), Val::new(v), &mut e, &mut g)),
                    1 => {
                        if src.bool() {
                            let (i, old) = b.insert_sym_full(k, Val::new(v));
                            index = Some(i);
                            old
                        } else {
                            b.insert_sym(k, Val::new(v))
                        }
                    }
                    2 => b.insert_prehashed(k.h as usize, Key::new(k), Val::new(v)),
                    _ => b.insert_prehashed_with(k.h as usize, Key::new(k), Val::new(v), |o| {
                        log_eql(k, o.core);
                        o.core.id == k.id
                    }),
                };
                asked("fast insert")?;
                if index.is_some() {
                    same!(index, ok!(a.get_index_of(&k, &mut e, &mut g)), "index of insert_sym_full");
                }
                same!(y.map(|y| y.v), x.map(|x| x.v), "replaced value");
                twins += (op > 0) as u32;
            }
            4..=6 => {
                log_on();
                let x = ok!(a.get(&k, &mut e, &mut g)).map(|v| v.v);
                asked("get")?;
                log_on();
                let y = match op {
                    4 => {
                        let kk = Key::new(k);
                        ok!(b.get_prehashed(k.h as usize, &kk, &mut e, &mut g)).map(|v| v.v)
                    }
                    5 => ok!(b.get_prehashed_with(
                        k.h as usize,
                        |o| {
                            log_eql(k, o.core);
                            o.core.id == k.id
                        },
                        &mut e,
                        &mut g
                    ))
                    .map(|v| v.v),
                    _ => ok!(b.get(&k, &mut e, &mut g)).map(|v| v.v),
                };
                asked("fast get")?;
                same!(y, x, "looked-up value");
                twins += 1;
            }
            7..=10 => {
                log_on();
                let x = match op {
                    7 | 8 => ok!(a.shift_remove_full(&k, &mut e, &mut g)),
                    _ => ok!(a.swap_remove_full(&k, &mut e, &mut g)),
                };
                asked("removal")?;
                log_on();
                let y = match op {
                    7 => ok!(b.shift_remove(&k, &mut e, &mut g)).map(|v| v.v),
                    8 => ok!(b.shift_remove_entry(&k, &mut e, &mut g)).map(|v| v.1.v),
                    9 => ok!(b.swap_remove(&k, &mut e, &mut g)).map(|v| v.v),
                    _ => ok!(b.swap_remove_entry(&k, &mut e, &mut g)).map(|v| v.1.v),
                };
                asked("removal")?;
                same!(y, x.map(|x| x.2.v), "removed value");
            }
            11 => {
                let i = src.usize(a.len() + 1);
                log_on();
                let x = ok!(a.shift_insert(i.min(a.len().saturating_sub(1)), Key::new(k), Val::new(v), &mut e, &mut g));
                asked("shift_insert")?;
                let y = ok!(b.shift_insert(i.min(b.len().saturating_sub(1)), Key::new(k), Val::new(v), &mut e, &mut g));
                same!(y.map(|y| y.v), x.map(|x| x.v), "shift_insert");
            }
            12 => {
                log_on();
                let x = ok!(a.entry(Key::new(k), &mut e, &mut g)).or_insert(Val::new(v)).v;
                asked("entry")?;
                log_on();
                let c = ok!(b.contains_key(&k, &mut e, &mut g));
                asked("contains_key")?;
                if !c {
                    b.insert_prehashed(k.h as usize, Key::new(k), Val::new(v));
                }
                same!(ok!(b.get(&k, &mut e, &mut g)).map(|v| v.v), Some(x), "value of the entry");
            }
            _ => {
                let cut = src.usize(a.len() + 1);
                ok!(a.truncate(cut, &mut e, &mut g));
                ok!(b.truncate(cut, &mut e, &mut g));
            }
        }
        src.end();
        n += 1;
        max = max.max(a.len());
        same!(content(&b), content(&a), "the two maps");
        if a.len() < 60 || n % 4 == 0 {
            for (i, (id, _)) in content(&a).iter().enumerate() {
                let c = u.core(*id);
                for m in [&a, &b] {
                    match m.get_index_of(&c, &mut e, &mut g) {
                        Ok(Some(j)) if j == i => {}
                        r => return Err(format!("{c:?} is at {i} but looking it up gives {r:?}")),
                    }
                }
            }
        }
        noticed()?;
    }
    if max > 8 && twins > 0 {
        cx.nontrivial();
    }
    drop((a, b));
    same!(live(), 0, "live instances at the end");
    noticed()
}

/// C06: windows during which pairs are deleted in place.
pub fn tombstones(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let (mut e, mut g) = ctx();
    let mut map = Map::default();
    let mut next = 0u32;
    note!(cx, "universe of {} keys, hash mode {}", u.size, u.mode);
    // model: the pairs by position, None for a hole
    let mut m: Vec<Option<P>> = vec![];
    let dead = Core { id: u32::MAX, h: src.pick(&[0u64, u64::MAX, 12345]) };
    let mut holes_made = 0;
    let mut max = 0;
    macro_rules! ok {
        ($x:expr) => {
            $x.map_err(|f| format!("failed: {f:?}"))?
        };
    }
    let mut rounds = 0;
    while rounds == 0 || (src.more(4) && rounds < 12) {
        rounds += 1;
        // ordinary life
        let mut n = 0;
        while src.more(14) && n < 80 {
            n += 1;
            src.begin();
            let k = u.any(src);
            next += 1;
            let at = m.iter().position(|p| p.unwrap().id == k.id);
            if src.below(4) < 3 {
                note!(cx, "insert({k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let old = ok!(map.insert(key, Val::new(next), &mut e, &mut g));
                same!(old.is_some(), at.is_some(), "insert outside a window");
                match at {
                    Some(i) => m[i].as_mut().unwrap().v = next,
                    None => m.push(Some(P { id: k.id, serial, v: next })),
                }
            } else {
                note!(cx, "shift_remove({k:?})");
                let old = ok!(map.shift_remove(&k, &mut e, &mut g));
                same!(old.map(|o| o.v), at.map(|i| m.remove(i).unwrap().v), "shift_remove outside a window");
            }
            src.end();
        }
        max = max.max(m.len());
        // a window
        note!(cx, "-- window opens with {} pairs", m.len());
        let mut n = 0;
        while src.more(8) && n < 60 {
            n += 1;
            src.begin();
            let k = if m.is_empty() || src.chance(1, 4) {
                u.any(src)
            } else {
                match m[src.usize(m.len())] {
                    Some(p) => u.core(p.id),
                    None => u.any(src),
                }
            };
            next += 1;
            let at = m.iter().position(|p| p.is_some_and(|p| p.id == k.id));
            match src.weighted(&[6, 4, 3, 3]) {
                0 => {
                    let fail = if src.chance(1, 6) { 1 + src.below(3) } else { 0 };
                    note!(cx, "tombstone_remove({k:?}), failing callback {fail}");
                    if fail > 0 {
                        arm(fail, Kind::Error, None);
                    }
                    let r = map.tombstone_remove(&k, Key::new(dead), Val::new(0), &mut e, &mut g);
                    let fired = disarm();
                    match r {
                        Err(_) => ensure!(fired, "tombstone_remove failed by itself"),
                        Ok(r) => {
                            ensure!(!fired, "an error was swallowed by tombstone_remove");
                            same!(
                                r.map(|(i, k, v)| (i, k.serial(), v.v)),
                                at.map(|i| (i, m[i].unwrap().serial, m[i].unwrap().v)),
                                "tombstone_remove"
                            );
                            if let Some(i) = at {
                                m[i] = None;
                                holes_made += 1;
                            }
                        }
                    }
                }
                1 => {
                    // the caller gives the position of a live pair, or one past the end
                    let live: Vec<usize> = (0..m.len()).filter(|i| m[*i].is_some()).collect();
                    let i = if live.is_empty() || src.chance(1, 8) { m.len() + src.usize(2) } else { live[src.usize(live.len())] };
                    note!(cx, "tombstone_index({i})");
                    let r = ok!(map.tombstone_index(i, Key::new(dead), Val::new(0), &mut e, &mut g));
                    let want = m.get_mut(i).and_then(|p| p.take());
                    same!(r.map(|(k, v)| (k.serial(), v.v)), want.map(|p| (p.serial, p.v)), "tombstone_index");
                    holes_made += want.is_some() as u32;
                }
                2 => {
                    note!(cx, "get_mut({k:?}) = v{next}");
                    let r = ok!(map.get_mut(&k, &mut e, &mut g));
                    same!(r.as_ref().map(|r| r.v), at.map(|i| m[i].unwrap().v), "get_mut in a window");
                    if let Some(r) = r {
                        r.v = next;
                        m[at.unwrap()].as_mut().unwrap().v = next;
                    }
                }
                _ => {
                    // storing to a key that is present is allowed
                    if let Some(i) = at {
                        note!(cx, "insert({k:?}, v{next}) over a present key");
                        let old = ok!(map.insert(Key::new(k), Val::new(next), &mut e, &mut g));
                        same!(old.map(|o| o.v), Some(m[i].unwrap().v), "insert over a present key");
                        m[i].as_mut().unwrap().v = next;
                    }
                }
            }
            src.end();
            // every position is as it was
            same!(map.len(), m.len(), "positions");
            for (i, p) in m.iter().enumerate() {
                let (k, v) = map.get_index(i).unwrap();
                match p {
                    Some(p) => same!((k.core.id, k.serial(), v.v), (p.id, p.serial, p.v), "pair {i} in a window"),
                    None => same!(k.core.id, dead.id, "hole {i}"),
                }
            }
            let stride = (u.size / 30).max(1);
            for id in (0..u.size).step_by(stride as usize) {
                let at = m.iter().position(|p| p.is_some_and(|p| p.id == id));
                same!(ok!(map.get_index_of(&u.core(id), &mut e, &mut g)), at, "position of k{id} in a window");
            }
        }
        note!(cx, "-- window closes");
        map.compact_tombstones(|k| k.core.id == dead.id);
        m.retain(|p| p.is_some());
        same!(map.len(), m.len(), "pairs after compaction");
        for (i, p) in m.iter().enumerate() {
            let p = p.unwrap();
            let (k, v) = map.get_index(i).unwrap();
            same!((k.core.id, k.serial(), v.v), (p.id, p.serial, p.v), "pair {i} after compaction");
        }
        for id in 0..u.size.min(200) {
            let at = m.iter().position(|p| p.unwrap().id == id);
            same!(ok!(map.get_index_of(&u.core(id), &mut e, &mut g)), at, "position of k{id} after compaction");
        }
        same!(live(), 2 * m.len() as i64, "live keys and values");
        noticed()?;
    }
    if holes_made > 0 && m.len() + max > 4 {
        cx.nontrivial();
    }
    if max > 8 {
        cx.label("windows on indexed maps");
    } else {
        cx.label("windows on small maps");
    }
    drop(map);
    same!(live(), 0, "live instances at the end");
    noticed()
}

// ------------------------------------------------------------------ capacity and layout

/// A key with a niche, as object references have.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Nz(pub NonZeroU64);
impl RubyEql<(), (), ()> for Nz {
    fn eql(&self, o: &Self, _: &mut (), _: &mut ()) -> Result<bool, ()> {
        Ok(self.0 == o.0)
    }
}
impl RubyHash<(), (), ()> for Nz {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, _: &mut (), _: &mut ()) -> Result<(), ()> {
        s.write_u64(self.0.get());
        Ok(())
    }
}

/// Checks the published layout of one instantiation on a generated map.
fn layout_of<K, V>(src: &mut Src, cx: &mut Cx, name: &str, key: fn(u64) -> K, val: fn(u64) -> V) -> R
where
    K: Clone + PartialEq + std::fmt::Debug + RubyEql<(), (), ()> + RubyHash<(), (), ()>,
    V: Clone + PartialEq + std::fmt::Debug,
{
    let Some(lay) = rubymap::entries_layout::<K, V, (), (), (), Pass>() else {
        // allowed: "cannot be identified"; the pinned toolchain always can
        return Err(format!("no layout for {name} with the pinned toolchain"));
    };
    let mut map: RubyMap<K, V, (), (), (), Pass> =
        if src.bool() { RubyMap::default() } else { RubyMap::with_capacity_and_hasher(src.usize(30), Pass) };
    let n = src.len(60);
    note!(cx, "layout of {name} with {n} insertions");
    for i in 0..n {
        let k = 1 + src.below(40);
        let v = src.u64() | 1;
        if src.chance(1, 5) {
            let _ = map.shift_remove(&key(k), &mut (), &mut ());
        } else {
            let _ = map.insert(key(k), val(v), &mut (), &mut ());
        }
        if i % 8 == 0 {
            raw_check(&map, &lay)?;
        }
    }
    raw_check(&map, &lay)?;
    let boxed = Box::new(map);
    raw_check(&boxed, &lay)?;
    if boxed.len() > 8 {
        cx.nontrivial();
    }
    Ok(())
}

fn raw_check<K: Clone + PartialEq + std::fmt::Debug, V: Clone + PartialEq + std::fmt::Debug>(
    map: &RubyMap<K, V, (), (), (), Pass>,
    lay: &rubymap::EntriesLayout,
) -> R {
    let size = std::mem::size_of_val(map);
    ensure!(lay.ptr_offset + 8 <= size && lay.len_offset + 8 <= size, "offsets outside the map: {lay:?}");
    ensure!(lay.ptr_offset != lay.len_offset, "pointer and length at the same offset: {lay:?}");
    ensure!(lay.key_offset + std::mem::size_of::<K>() <= lay.bucket_size, "key outside its entry: {lay:?}");
    ensure!(lay.value_offset + std::mem::size_of::<V>() <= lay.bucket_size, "value outside its entry: {lay:?}");
    let p = map as *const _ as *const u8;
    let len = unsafe { p.add(lay.len_offset).cast::<usize>().read() };
    same!(len, map.len(), "length read through the layout");
    let base = unsafe { p.add(lay.ptr_offset).cast::<*const u8>().read() };
    for i in 0..len {
        let entry = unsafe { base.add(i * lay.bucket_size) };
        let k = unsafe { entry.add(lay.key_offset).cast::<K>() };
        let v = unsafe { entry.add(lay.value_offset).cast::<V>() };
        let (ek, ev) = map.get_index(i).unwrap();
        ensure!(std::ptr::eq(k, ek), "key {i} is not where the layout says ({lay:?})");
        ensure!(std::ptr::eq(v, ev), "value {i} is not where the layout says ({lay:?})");
        same!(unsafe { &*k }, ek, "key {i} read through the layout");
        same!(unsafe { &*v }, ev, "value {i} read through the layout");
    }
    Ok(())
}

pub fn layout(src: &mut Src, cx: &mut Cx) -> R {
    let nz = |x: u64| NonZeroU64::new(x).unwrap();
    let _ = nz;
    fn knz(x: u64) -> Nz {
        Nz(NonZeroU64::new(x).unwrap())
    }
    fn ident(x: u64) -> u64 {
        x
    }
    fn small(x: u64) -> u8 {
        x as u8
    }
    fn mid(x: u64) -> u32 {
        x as u32
    }
    fn wide(x: u64) -> [u64; 5] {
        [x, x + 1, x + 2, x + 3, x + 4]
    }
    fn text(x: u64) -> String {
        format!("{x}")
    }
    fn opt(x: u64) -> Option<NonZeroU64> {
        NonZeroU64::new(x)
    }
    match src.below(8) {
        0 => layout_of(src, cx, "u64 => u64", ident, ident),
        1 => layout_of(src, cx, "niche => niche", knz, opt),
        2 => layout_of(src, cx, "niche => u64", knz, ident),
        3 => layout_of(src, cx, "u8 => u32", small, mid),
        4 => layout_of(src, cx, "u64 => [u64; 5]", ident, wide),
        5 => layout_of(src, cx, "String => u8", text, small),
        6 => layout_of(src, cx, "niche => [u64; 5]", knz, wide),
        _ => layout_of(src, cx, "u32 => niche", mid, opt),
    }
}

/// Reserved room is usable without moving the pairs; shrinking and refusing.
pub fn capacity(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::small(src, 300);
    let (mut e, mut g) = ctx();
    macro_rules! ok {
        ($x:expr) => {
            $x.map_err(|f| format!("failed: {f:?}"))?
        };
    }
    let cap0 = src.len(70);
    let mut map = Map::with_capacity_and_hasher(cap0, Pass);
    note!(cx, "with_capacity({cap0}), universe {} mode {}", u.size, u.mode);
    ensure!(map.capacity() >= cap0, "with_capacity({cap0}) gives {}", map.capacity());
    // the ids present, and the ids never used yet (so that insertions are of new keys)
    let mut present: Vec<u32> = vec![];
    let mut fresh = 0u32;
    let mut promise = cap0;
    let mut n = 0;
    let mut filled = 0;
    while src.more(8) && n < 40 {
        n += 1;
        src.begin();
        match src.below(7) {
            0 | 1 => {
                // use up the promised room
                let room = promise.saturating_sub(map.len());
                let k = if src.bool() { room } else { src.len(room) };
                note!(cx, "insert {k} new pairs into promised room of {room}");
                let cap = map.capacity();
                let base = map.as_slice() as *const _ as *const u8 as usize;
                for j in 0..k {
                    let c = u.core(fresh);
                    ok!(map.insert(Key::new(c), Val::new(fresh), &mut e, &mut g));
                    present.push(fresh);
                    fresh += 1;
                    let now = map.as_slice() as *const _ as *const u8 as usize;
                    ensure!(now == base || map.len() == 1 && cap == 0, "the pairs moved at insertion {j} of {k} within the promised capacity {promise}");
                }
                filled += k;
            }
            2 => {
                let k = src.len(60);
                let exact = src.bool();
                note!(cx, "reserve({k}) exact={exact}");
                if exact {
                    map.reserve_exact(k);
                } else {
                    map.reserve(k);
                }
                ensure!(map.capacity() >= map.len() + k, "capacity {} after reserve({k}) with {} pairs", map.capacity(), map.len());
                promise = promise.max(map.len() + k);
            }
            3 => {
                let k = src.len(80);
                let fit = src.bool();
                note!(cx, "shrink fit={fit} to {k}");
                let before = map.capacity();
                if fit {
                    map.shrink_to_fit();
                    promise = map.len();
                } else {
                    map.shrink_to(k);
                    // what is promised afterwards
                    promise = promise.min(k.max(map.len()));
                }
                ensure!(map.capacity() >= map.len(), "capacity below the length after shrinking");
                if !fit {
                    ensure!(map.capacity() >= k.min(before), "shrink_to({k}) from {before} left {}", map.capacity());
                }
            }
            4 => {
                // removals keep the pair storage, which later insertions show
                let k = src.len(map.len());
                note!(cx, "remove {k} pairs");
                for _ in 0..k {
                    let i = src.usize(present.len());
                    let id = present.remove(i);
                    let r = ok!(map.shift_remove(&u.core(id), &mut e, &mut g));
                    ensure!(r.is_some(), "k{id} was not there");
                }
            }
            5 => {
                let huge = src.pick(&[usize::MAX, usize::MAX / 2, usize::MAX / 8, isize::MAX as usize, usize::MAX - 3, 1 << 60]);
                let how = src.below(3);
                note!(cx, "reserve {huge}, way {how}");
                let len = map.len();
                let r = pbt::catch(|| match how {
                    0 => map.reserve(huge),
                    1 => map.reserve_exact(huge),
                    _ => {
                        let m = Map::with_capacity_and_hasher(huge, Pass);
                        drop(m);
                    }
                });
                ensure!(r.is_err(), "room for {huge} more pairs was promised");
                same!(map.len(), len, "length after a refused reservation");
            }
            _ => {
                if src.chance(1, 3) {
                    note!(cx, "clear()");
                    let before = map.capacity();
                    map.clear();
                    present.clear();
                    ensure!(map.capacity() >= before.min(promise), "clear gave up capacity");
                }
            }
        }
        src.end();
        same!(map.len(), present.len(), "length");
        let got: Vec<u32> = map.iter().map(|(k, _)| k.core.id).collect();
        same!(got, present, "contents");
        for (i, id) in present.iter().enumerate() {
            same!(ok!(map.get_index_of(&u.core(*id), &mut e, &mut g)), Some(i), "position of k{id}");
        }
    }
    if filled > 8 {
        cx.nontrivial();
    }
    drop(map);
    same!(live(), 0, "live instances at the end");
    noticed()
}

// ------------------------------------------------------------------ equality of whole maps

/// Two maps that hold the same or nearly the same pairs, in any order.
pub fn equality(src: &mut Src, cx: &mut Cx) -> R {
    type Std = RubyMap<Key, Val, Vm, Gl, Fault>;
    reset();
    let u = Universe::small(src, 40);
    let (mut e, mut g) = ctx();
    let mut a: Vec<(u32, u32)> = vec![];
    let most = src.pick(&[4usize, 9, 12, 30]).min(u.size as usize);
    let n = src.usize(most + 1);
    for _ in 0..n {
        let id = src.below(u.size as u64) as u32;
        if !a.iter().any(|p| p.0 == id) {
            a.push((id, src.below(3) as u32));
        }
    }
    let mut b = a.clone();
    for i in (1..b.len()).rev() {
        b.swap(i, src.usize(i + 1));
    }
    for _ in 0..src.weighted(&[3, 4, 1]) {
        let id = src.below(u.size as u64) as u32;
        let at = src.usize(b.len().max(1));
        match src.below(4) {
            0 if !b.is_empty() => b[at].1 ^= 1,
            1 if !b.is_empty() => {
                b.remove(at);
            }
            2 if !b.is_empty() && !b.iter().any(|p| p.0 == id) => b[at].0 = id,
            _ if !b.iter().any(|p| p.0 == id) => b.push((id, 0)),
            _ => {}
        }
    }
    let want = a.len() == b.len() && a.iter().all(|p| b.contains(p));
    note!(cx, "{a:?} against {b:?}");
    if a.len() > 1 {
        cx.nontrivial();
    }
    cx.label(if want { "equal" } else { "unequal" });
    macro_rules! ok {
        ($x:expr) => {
            $x.map_err(|f| format!("failed: {f:?}"))?
        };
    }
    let mut make = |l: &[(u32, u32)], e: &mut Vm, g: &mut Gl| -> Result<Std, String> {
        let mut m = Std::default();
        for (id, v) in l {
            ok!(m.insert(Key::new(u.core(*id)), Val::new(*v), e, g));
        }
        Ok(m)
    };
    let x = make(&a, &mut e, &mut g)?;
    let y = make(&b, &mut e, &mut g)?;
    same!(ok!(RubyEql::eql(&x, &y, &mut e, &mut g)), want, "equality");
    same!(ok!(RubyEql::eql(&y, &x, &mut e, &mut g)), want, "equality the other way round");
    same!(ok!(RubyEql::eql(&x, &x.clone(), &mut e, &mut g)), true, "equality with a clone");
    // a comparison that fails
    let at = 1 + src.below(6);
    arm(at, Kind::Error, Some("eql"));
    let r = RubyEql::eql(&x, &y, &mut e, &mut g);
    let fired = disarm();
    ensure!(r.is_err() == fired, "equality gave {r:?} although comparison {at} {}", if fired { "failed" } else { "was not reached" });
    if let Ok(v) = r {
        same!(v, want, "equality");
    }
    drop((x, y));
    // maps and sets whose keys cannot fail
    let plain = |l: &[(u32, u32)]| -> RubyMap<u32, u32> {
        let mut m = RubyMap::new();
        for (id, v) in l {
            let _ = m.insert(*id, *v, &mut (), &mut ());
        }
        m
    };
    let (x, y) = (plain(&a), plain(&b));
    same!(x == y, want, "==");
    same!(x != y, !want, "!=");
    same!(y == x, want, "== the other way round");
    for (i, (id, v)) in a.iter().enumerate() {
        same!(x[id], *v, "[&{id}]");
        same!(x[i], *v, "[{i}]");
    }
    let ids = |l: &[(u32, u32)]| -> rubymap::RubySet<u32> {
        let mut s = rubymap::RubySet::new();
        for (id, _) in l {
            let _ = s.insert(*id, &mut (), &mut ());
        }
        s
    };
    let want = a.len() == b.len() && a.iter().all(|p| b.iter().any(|q| q.0 == p.0));
    same!(ids(&a) == ids(&b), want, "== of sets");
    // views are equal when they show the same in the same order
    same!(x.as_slice() == y.as_slice(), a == b, "== of views");
    let (l, m): (Vec<(u32, u32)>, Vec<(u32, u32)>) = (a.clone(), b.clone());
    same!(*x.as_slice() == m[..], a == b, "== of a view and a list");
    same!(l[..] == *y.as_slice(), a == b, "== of a list and a view");
    let (p, q): (Vec<u32>, Vec<u32>) = (a.iter().map(|p| p.0).collect(), b.iter().map(|p| p.0).collect());
    same!(ids(&a).as_slice() == ids(&b).as_slice(), p == q, "== of views of sets");
    same!(*ids(&a).as_slice() == q[..], p == q, "== of a view of a set and a list");
    same!(p[..] == *ids(&b).as_slice(), p == q, "== of a list and a view of a set");
    same!(x.as_slice().cmp(y.as_slice()), a.cmp(&b), "order of views");
    same!(ids(&a).as_slice().partial_cmp(ids(&b).as_slice()), p.partial_cmp(&q), "order of views of sets");
    // views that are equal have the same hash, others hardly ever
    let digest = |x: &dyn Fn(&mut std::hash::DefaultHasher)| {
        let mut h = std::hash::DefaultHasher::new();
        x(&mut h);
        std::hash::Hasher::finish(&h)
    };
    use std::hash::Hash;
    same!(digest(&|h| x.as_slice().hash(h)) == digest(&|h| y.as_slice().hash(h)), a == b, "the same hash of views");
    same!(
        digest(&|h| ids(&a).as_slice().hash(h)) == digest(&|h| ids(&b).as_slice().hash(h)),
        p == q,
        "the same hash of views of sets"
    );
    // a view says how long it is, so that two of them in a row cannot be taken for another two
    let at = src.usize(a.len() + 1);
    let whole = ids(&a);
    let two = |at: usize| {
        let (l, r) = whole.as_slice().split_at(at);
        digest(&|h| (l, r).hash(h))
    };
    let other = src.usize(a.len() + 1);
    same!(two(at) == two(other), at == other, "the same hash of two parts");
    let two = |at: usize| {
        let (l, r) = x.as_slice().split_at(at);
        digest(&|h| (l, r).hash(h))
    };
    same!(two(at) == two(other), at == other, "the same hash of two parts of a map");
    // taking over another's content
    let (mut s, mut m) = (ids(&a), plain(&a));
    s.clone_from(&ids(&b));
    m.clone_from(&y);
    same!(s.iter().copied().collect::<Vec<_>>(), q, "a set after clone_from");
    same!(m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), b, "a map after clone_from");
    for (id, v) in &b {
        same!(m.get(id, &mut (), &mut ()), Ok(Some(v)), "a key after clone_from");
        same!(s.contains(id, &mut (), &mut ()), Ok(true), "an element after clone_from");
    }
    same!(live(), 0, "live instances at the end");
    noticed()
}
