//! Histories of the unordered map against a sorted map.

use crate::common::*;
use crate::rmap::arm_at;
use hashbrown::HashMap;
use hashbrown::hash_map::{Entry, EntryRef};
use pbt::{Cx, R, Src, ensure, note, same};
use ruby_traits::RubyEql;
use std::collections::BTreeMap;
use std::fmt::Debug;

pub type Map = HashMap<Key, Val, Vm, Gl, Fault, Pass>;

/// A stored pair: which key instance and which value.
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct P {
    pub serial: u32,
    pub v: u32,
}

pub type Model = BTreeMap<u32, P>;

pub struct Sys {
    pub u: Universe,
    pub maps: Vec<(Map, Model)>,
    pub cur: usize,
    pub e: Vm,
    pub g: Gl,
    pub fail_at: u64,
    next: u32,
    pub max_len: usize,
    pub removed: usize,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Step {
    Done,
    Raised,
}

macro_rules! t {
    ($self:ident, $x:expr) => {{
        arm_at($self.fail_at);
        let r = $x;
        let fired = $self.fail_at != 0 && disarm();
        match r {
            Ok(v) => {
                if fired {
                    return Err("an error raised by a callback was swallowed".to_string());
                }
                v
            }
            Err(Fault(n)) => {
                if !fired || n != $self.fail_at {
                    return Err(format!("the operation failed with {n} but callback {} raised", $self.fail_at));
                }
                return Ok(Step::Raised);
            }
        }
    }};
}

/// Takes an unordered iterator apart and compares what it yields with a list.
pub fn uwalk<I, T>(src: &mut Src, what: &str, mut it: I, mut want: Vec<T>) -> R
where
    I: ExactSizeIterator<Item = T>,
    T: Ord + Debug,
{
    want.sort();
    let steps = src.len(want.len() + 3);
    let mut got = vec![];
    for s in 0..steps {
        let left = want.len() - got.len();
        same!(it.len(), left, "{what}: remaining length at step {s}");
        same!(it.size_hint(), (left, Some(left)), "{what}: size_hint at step {s}");
        match it.next() {
            Some(x) => got.push(x),
            None => ensure!(left == 0, "{what}: ended with {left} to go"),
        }
        ensure!(got.len() <= want.len(), "{what}: yields more than {} items", want.len());
    }
    same!(it.len(), want.len() - got.len(), "{what}: remaining length");
    match src.below(4) {
        0 => {
            let left = want.len() - got.len();
            same!(it.count(), left, "{what}: count");
            for x in &got {
                ensure!(want.binary_search(x).is_ok(), "{what}: yields {x:?}");
            }
            return Ok(());
        }
        1 => got.extend(it),
        2 => {
            got = it.fold(got, |mut v, x| {
                v.push(x);
                v
            })
        }
        _ => {
            while let Some(x) = it.next() {
                got.push(x);
                if got.len() > want.len() {
                    break;
                }
            }
            for _ in 0..3 {
                ensure!(it.next().is_none(), "{what}: yields again after the end");
            }
        }
    }
    got.sort();
    same!(got, want, "{what}");
    Ok(())
}

impl Sys {
    pub fn new(src: &mut Src, cx: &mut Cx, u: Universe) -> Self {
        let n = 1 + src.usize(2);
        let mut maps = vec![];
        for _ in 0..n {
            let m = if src.bool() { Map::default() } else { Map::with_capacity_and_hasher(src.usize(40), Pass) };
            maps.push((m, Model::new()));
        }
        note!(cx, "universe of {} keys, hash mode {}, {n} maps", u.size, u.mode);
        let (e, g) = ctx();
        Sys { u, maps, cur: 0, e, g, fail_at: 0, next: 0, max_len: 0, removed: 0 }
    }

    pub fn model(&self) -> &Model {
        &self.maps[self.cur].1
    }

    fn val(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    /// An id that is present about half of the time.
    pub fn key(&self, src: &mut Src) -> Core {
        let n = self.model().len();
        if n > 0 && src.bool() {
            let i = src.usize(n);
            self.u.core(*self.model().keys().nth(i).unwrap())
        } else {
            self.u.any(src)
        }
    }

    pub fn verify(&mut self) -> R {
        breathe();
        noticed()?;
        let u = self.u;
        let (e, g) = (&mut self.e, &mut self.g);
        for (w, (map, m)) in self.maps.iter().enumerate() {
            same!(map.len(), m.len(), "len of map {w}");
            same!(map.is_empty(), m.is_empty(), "is_empty of map {w}");
            ensure!(map.capacity() >= map.len(), "capacity {} of map {w} is below its length {}", map.capacity(), map.len());
            let mut seen = Model::new();
            for (k, v) in map.iter() {
                let p = P { serial: k.serial(), v: v.v };
                if seen.insert(k.core.id, p).is_some() {
                    return Err(format!("map {w} yields {k:?} twice"));
                }
            }
            same!(seen, *m, "contents of map {w}");
            for (id, p) in m.iter() {
                let c = u.core(*id);
                match map.get_key_value(&c, e, g) {
                    Ok(Some((k, v))) if k.serial() == p.serial && v.v == p.v => {}
                    r => return Err(format!("map {w}: k{id} maps to {p:?} but looking it up gives {r:?}")),
                }
            }
            let stride = (u.size / 40).max(1);
            let mut id = 0;
            while id < u.size {
                if !m.contains_key(&id) {
                    match map.contains_key(&u.core(id), e, g) {
                        Ok(false) => {}
                        r => return Err(format!("map {w}: k{id} is absent but contains_key gives {r:?}")),
                    }
                }
                id += stride;
            }
        }
        noticed()
    }

    pub fn verify_live(&self) -> R {
        let expect: i64 = self.maps.iter().map(|m| 2 * m.1.len() as i64).sum();
        same!(live(), expect, "live keys and values");
        noticed()
    }

    fn track(&mut self) {
        self.max_len = self.max_len.max(self.model().len());
    }

    /// Operations on one key.
    pub fn core_op(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let k = self.key(src);
        let v = self.val();
        let (e, g) = (&mut self.e, &mut self.g);
        let (map, m) = &mut self.maps[c];
        let at = m.get(&k.id).copied();
        match src.weighted(&[20, 4, 3, 3, 5, 3, 10, 6, 4, 2]) {
            0 => {
                note!(cx, "insert({k:?}, v{v})");
                let key = Key::new(k);
                let serial = key.serial();
                let old = t!(self, map.insert(key, Val::new(v), e, g));
                same!(old.map(|o| o.v), at.map(|p| p.v), "insert");
                m.insert(k.id, P { serial: at.map_or(serial, |p| p.serial), v });
            }
            1 => {
                note!(cx, "get({k:?})");
                let r = t!(self, map.get(&k, e, g));
                same!(r.map(|r| r.v), at.map(|p| p.v), "get");
            }
            2 => {
                note!(cx, "get_key_value({k:?})");
                let r = t!(self, map.get_key_value(&k, e, g));
                same!(r.map(|r| P { serial: r.0.serial(), v: r.1.v }), at, "get_key_value");
            }
            3 => {
                note!(cx, "contains_key({k:?})");
                let r = t!(self, map.contains_key(&k, e, g));
                same!(r, at.is_some(), "contains_key");
            }
            4 => {
                note!(cx, "get_mut({k:?}) = v{v}");
                let r = t!(self, map.get_mut(&k, e, g));
                same!(r.as_ref().map(|r| r.v), at.map(|p| p.v), "get_mut");
                if let Some(r) = r {
                    r.v = v;
                    m.get_mut(&k.id).unwrap().v = v;
                }
            }
            5 => {
                note!(cx, "get_key_value_mut({k:?}) = v{v}");
                let r = t!(self, map.get_key_value_mut(&k, e, g));
                same!(r.as_ref().map(|r| P { serial: r.0.serial(), v: r.1.v }), at, "get_key_value_mut");
                if let Some(r) = r {
                    r.1.v = v;
                    m.get_mut(&k.id).unwrap().v = v;
                }
            }
            6 => {
                note!(cx, "remove({k:?})");
                let r = t!(self, map.remove(&k, e, g));
                same!(r.map(|r| r.v), at.map(|p| p.v), "remove");
                if m.remove(&k.id).is_some() {
                    self.removed += 1;
                }
            }
            7 => {
                note!(cx, "remove_entry({k:?})");
                let r = t!(self, map.remove_entry(&k, e, g));
                same!(r.map(|r| P { serial: r.0.serial(), v: r.1.v }), at, "remove_entry");
                if m.remove(&k.id).is_some() {
                    self.removed += 1;
                }
            }
            8 => {
                note!(cx, "try_insert({k:?}, v{v})");
                let key = Key::new(k);
                let serial = key.serial();
                match t!(self, map.try_insert(key, Val::new(v), e, g)) {
                    Ok(r) => {
                        ensure!(at.is_none(), "try_insert added {k:?} again");
                        same!(r.v, v, "try_insert");
                        m.insert(k.id, P { serial, v });
                    }
                    Err(err) => {
                        let p = P { serial: err.entry.key().serial(), v: err.entry.get().v };
                        same!(Some(p), at, "occupied entry of try_insert");
                        same!(err.value.v, v, "value given back by try_insert");
                    }
                }
            }
            _ => {
                if at.is_none() {
                    note!(cx, "insert_unique_unchecked({k:?}, v{v})");
                    let key = Key::new(k);
                    let serial = key.serial();
                    // SAFETY: the key is absent.
                    let (rk, rv) = unsafe { map.insert_unique_unchecked(key, Val::new(v)) };
                    same!((rk.serial(), rv.v), (serial, v), "insert_unique_unchecked");
                    m.insert(k.id, P { serial, v });
                }
            }
        }
        self.track();
        Ok(Step::Done)
    }

    /// Operations through entry handles.
    pub fn entry_op(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let k = self.key(src);
        let v = self.val();
        let w = self.val();
        let (e, g) = (&mut self.e, &mut self.g);
        let (map, m) = &mut self.maps[c];
        let at = m.get(&k.id).copied();
        if src.chance(2, 3) {
            let key = Key::new(k);
            let serial = key.serial();
            let held = at.map_or(serial, |p| p.serial);
            let how = src.below(10);
            note!(cx, "entry({k:?}) how {how} v{v} v{w}");
            let entry = t!(self, map.entry(key, e, g));
            same!(entry.key().serial(), held, "key of the entry");
            match how {
                0 => {
                    let o = entry.insert(Val::new(v));
                    same!((o.key().serial(), o.get().v), (held, v), "entry insert");
                    m.insert(k.id, P { serial: held, v });
                }
                1 => {
                    let r = entry.or_insert(Val::new(v));
                    same!(r.v, at.map_or(v, |p| p.v), "or_insert");
                    r.v = w;
                    m.insert(k.id, P { serial: held, v: w });
                }
                2 => {
                    let r = entry.or_insert_with(|| {
                        tick_panic("pred");
                        Val::new(v)
                    });
                    same!(r.v, at.map_or(v, |p| p.v), "or_insert_with");
                    let now = r.v;
                    m.insert(k.id, P { serial: held, v: now });
                }
                3 => {
                    let r = entry.or_insert_with_key(|x| {
                        tick_panic("pred");
                        Val::new(x.serial())
                    });
                    same!(r.v, at.map_or(serial, |p| p.v), "or_insert_with_key");
                    let now = r.v;
                    m.insert(k.id, P { serial: held, v: now });
                }
                4 => {
                    let r = entry.or_default();
                    same!(r.v, at.map_or(DEFAULT, |p| p.v), "or_default");
                    let now = r.v;
                    m.insert(k.id, P { serial: held, v: now });
                }
                5 => {
                    let r = entry
                        .and_modify(|x| {
                            tick_panic("pred");
                            x.v = v
                        })
                        .or_insert(Val::new(w));
                    let want = if at.is_some() { v } else { w };
                    same!(r.v, want, "and_modify");
                    m.insert(k.id, P { serial: held, v: want });
                }
                6 => {
                    let keep = src.bool();
                    let mut saw = None;
                    let entry = entry.and_replace_entry_with(|kk, old| {
                        tick_panic("pred");
                        saw = Some(P { serial: kk.serial(), v: old.v });
                        keep.then(|| Val::new(v))
                    });
                    same!(saw, at, "pair shown by and_replace_entry_with");
                    match &entry {
                        Entry::Occupied(o) => {
                            ensure!(at.is_some() && keep, "and_replace_entry_with is occupied");
                            same!((o.key().serial(), o.get().v), (held, v), "and_replace_entry_with");
                            m.insert(k.id, P { serial: held, v });
                        }
                        Entry::Vacant(x) => {
                            ensure!(at.is_none() || !keep, "and_replace_entry_with is vacant");
                            same!(x.key().serial(), held, "key left by and_replace_entry_with");
                            m.remove(&k.id);
                        }
                    }
                    if src.bool() {
                        let r = entry.or_insert(Val::new(w));
                        let now = r.v;
                        m.insert(k.id, P { serial: held, v: now });
                    }
                }
                7 => {
                    if let Entry::Occupied(o) = entry {
                        let p = at.ok_or("an absent key has an occupied entry")?;
                        same!(o.get().v, p.v, "value of the entry");
                        if src.bool() {
                            same!(o.remove().v, p.v, "entry remove");
                        } else {
                            let (rk, rv) = o.remove_entry();
                            same!((rk.serial(), rv.v), (p.serial, p.v), "entry remove_entry");
                        }
                        m.remove(&k.id);
                        self.removed += 1;
                    }
                }
                8 => match entry {
                    Entry::Occupied(mut o) => {
                        let p = at.ok_or("an absent key has an occupied entry")?;
                        let x = src.below(3);
                        match x {
                            0 => {
                                same!(o.insert(Val::new(v)).v, p.v, "old value of entry insert");
                                m.insert(k.id, P { serial: held, v });
                            }
                            1 => {
                                o.get_mut().v = v;
                                same!(o.get().v, v, "get after get_mut");
                                m.insert(k.id, P { serial: held, v });
                            }
                            _ => {
                                o.into_mut().v = v;
                                m.insert(k.id, P { serial: held, v });
                            }
                        }
                    }
                    Entry::Vacant(x) => {
                        ensure!(at.is_none(), "a present key has a vacant entry");
                        match src.below(3) {
                            0 => {
                                let r = x.insert(Val::new(v));
                                same!(r.v, v, "vacant insert");
                                m.insert(k.id, P { serial: held, v });
                            }
                            1 => {
                                let mut o = x.insert_entry(Val::new(w));
                                same!((o.key().serial(), o.get().v), (held, w), "insert_entry");
                                o.insert(Val::new(v));
                                if src.bool() {
                                    let (rk, rv) = o.remove_entry();
                                    same!((rk.serial(), rv.v), (held, v), "remove_entry after insert_entry");
                                } else {
                                    m.insert(k.id, P { serial: held, v });
                                }
                            }
                            _ => same!(x.into_key().serial(), serial, "into_key"),
                        }
                    }
                },
                _ => {
                    if let Entry::Occupied(o) = entry {
                        let p = at.ok_or("an absent key has an occupied entry")?;
                        let keep = src.bool();
                        let again = o.replace_entry_with(|kk, old| {
                            tick_panic("pred");
                            if kk.serial() != p.serial || old.v != p.v {
                                bad("replace_entry_with shows another pair".to_string());
                            }
                            keep.then(|| Val::new(w))
                        });
                        match again {
                            Entry::Occupied(o) => {
                                ensure!(keep, "replace_entry_with kept the pair");
                                same!((o.key().serial(), o.get().v), (held, w), "replace_entry_with");
                                m.insert(k.id, P { serial: held, v: w });
                            }
                            Entry::Vacant(x) => {
                                ensure!(!keep, "replace_entry_with lost the pair");
                                m.remove(&k.id);
                                if src.bool() {
                                    x.insert(Val::new(v));
                                    m.insert(k.id, P { serial: held, v });
                                }
                            }
                        }
                    }
                }
            }
        } else {
            let how = src.below(8);
            note!(cx, "entry_ref({k:?}) how {how} v{v} v{w}");
            let entry = t!(self, map.entry_ref(&k, e, g));
            same!(entry.key().id, k.id, "key of the entry_ref");
            let want = match how {
                0 => {
                    let o = entry.insert(Val::new(v));
                    same!(o.get().v, v, "entry_ref insert");
                    v
                }
                1 => {
                    let r = entry.or_insert(Val::new(v));
                    same!(r.v, at.map_or(v, |p| p.v), "entry_ref or_insert");
                    r.v
                }
                2 => {
                    let r = entry.or_insert_with(|| {
                        tick_panic("pred");
                        Val::new(v)
                    });
                    same!(r.v, at.map_or(v, |p| p.v), "entry_ref or_insert_with");
                    r.v
                }
                3 => {
                    let r = entry.or_insert_with_key(|x| {
                        tick_panic("pred");
                        Val::new(x.id)
                    });
                    same!(r.v, at.map_or(k.id, |p| p.v), "entry_ref or_insert_with_key");
                    r.v
                }
                4 => {
                    let r = entry.or_default();
                    same!(r.v, at.map_or(DEFAULT, |p| p.v), "entry_ref or_default");
                    r.v
                }
                5 => {
                    let r = entry.and_modify(|x| x.v = v).or_insert(Val::new(w));
                    let want = if at.is_some() { v } else { w };
                    same!(r.v, want, "entry_ref and_modify");
                    want
                }
                6 => match entry {
                    EntryRef::Occupied(o) => {
                        let p = at.ok_or("an absent key has an occupied entry")?;
                        let (rk, rv) = o.remove_entry();
                        same!((rk.serial(), rv.v), (p.serial, p.v), "entry_ref remove_entry");
                        m.remove(&k.id);
                        self.removed += 1;
                        self.track();
                        return Ok(Step::Done);
                    }
                    EntryRef::Vacant(x) => {
                        ensure!(at.is_none(), "a present key has a vacant entry");
                        same!(x.key().id, k.id, "key of a vacant entry_ref");
                        let r = x.insert(Val::new(v));
                        same!(r.v, v, "vacant entry_ref insert");
                        v
                    }
                },
                _ => match entry {
                    EntryRef::Occupied(mut o) => {
                        same!(o.insert(Val::new(v)).v, at.map_or(0, |p| p.v), "entry_ref insert on occupied");
                        v
                    }
                    EntryRef::Vacant(x) => {
                        let o = x.insert_entry(Val::new(v));
                        same!(o.get().v, v, "entry_ref insert_entry");
                        v
                    }
                },
            };
            // a vacant entry makes its own key
            let serial = match at {
                Some(p) => p.serial,
                None => {
                    disarm();
                    let (rk, _) = map.get_key_value(&k, e, g).map_err(|f| format!("{f:?}"))?.ok_or("entry_ref added nothing")?;
                    ensure!(!m.values().any(|p| p.serial == rk.serial()), "entry_ref stored a key twice");
                    rk.serial()
                }
            };
            m.insert(k.id, P { serial, v: want });
        }
        self.track();
        Ok(Step::Done)
    }

    /// Operations on many keys.
    pub fn bulk_op(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let n = self.model().len();
        let u = self.u;
        let which = src.weighted(&[2, 4, 6, 6, 5, 3, 4, 3, 3, 4, 5, 3, 4, 6, 10, 10, 8, 1]);
        match which {
            0 => {
                note!(cx, "clear");
                self.maps[c].0.clear();
                self.maps[c].1.clear();
            }
            1 => {
                let take = src.len(n + 2);
                note!(cx, "drain, taking {take}");
                let (map, m) = &mut self.maps[c];
                let cap = map.capacity();
                let mut got = Model::new();
                {
                    let mut d = map.drain();
                    for i in 0..take {
                        same!(d.len(), n.saturating_sub(i), "length of the drain");
                        match d.next() {
                            Some((k, v)) => {
                                let old = got.insert(k.core.id, P { serial: k.serial(), v: v.v });
                                ensure!(old.is_none(), "drained {k:?} twice");
                            }
                            None => ensure!(i >= n, "the drain ended after {i} of {n}"),
                        }
                    }
                    if src.chance(1, 3) {
                        got = d.fold(got, |mut g, (k, v)| {
                            g.insert(k.core.id, P { serial: k.serial(), v: v.v });
                            g
                        });
                        same!(got, *m, "drained by fold");
                    }
                }
                for (id, p) in &got {
                    same!(m.get(id), Some(p), "drained pair");
                }
                ensure!(take < n || got == *m, "not everything was drained");
                m.clear();
                ensure!(map.capacity() >= cap, "draining shrank the map");
            }
            2 => {
                let md = 1 + src.below(4) as u32;
                let r = src.below(md as u64) as u32;
                let set = src.bool();
                note!(cx, "retain(id % {md} == {r}) set={set}");
                let (map, m) = &mut self.maps[c];
                let mut seen = vec![];
                map.retain(|k, v| {
                    tick_panic("pred");
                    seen.push(k.core.id);
                    if set {
                        v.v = k.core.id;
                    }
                    k.core.id % md == r
                });
                seen.sort();
                same!(seen, m.keys().copied().collect::<Vec<_>>(), "keys shown by retain");
                m.retain(|id, p| {
                    if set {
                        p.v = *id;
                    }
                    *id % md == r
                });
            }
            3 => {
                let md = 1 + src.below(4) as u32;
                let r = src.below(md as u64) as u32;
                let take = src.len(n + 2);
                note!(cx, "extract_if(id % {md} == {r}), taking {take}");
                let (map, m) = &mut self.maps[c];
                let mut shown = vec![];
                let mut got = vec![];
                {
                    let mut it = map.extract_if(|k, v| {
                        tick_panic("pred");
                        shown.push(k.core.id);
                        v.v = v.v.wrapping_add(7);
                        k.core.id % md == r
                    });
                    for _ in 0..take {
                        let (lo, hi) = it.size_hint();
                        ensure!(lo == 0 && hi.is_some_and(|h| h <= n), "size_hint ({lo}, {hi:?}) of extract_if on {n}");
                        match it.next() {
                            Some((k, v)) => got.push((k.core.id, P { serial: k.serial(), v: v.v })),
                            None => break,
                        }
                    }
                }
                shown.sort();
                for w in shown.windows(2) {
                    ensure!(w[0] != w[1], "extract_if shows k{} twice", w[0]);
                }
                for id in &shown {
                    let p = m.get_mut(id).ok_or("extract_if shows an absent key")?;
                    p.v = p.v.wrapping_add(7);
                }
                for (id, p) in &got {
                    ensure!(id % md == r, "extract_if yields k{id}");
                    same!(m.remove(id), Some(*p), "pair yielded by extract_if");
                }
                ensure!(shown.iter().filter(|id| *id % md == r).count() == got.len(), "extract_if lost a pair");
                if got.len() < take {
                    ensure!(shown.len() == n, "extract_if ended early");
                }
                self.removed += got.len();
            }
            4 => {
                let k = src.len(80);
                note!(cx, "reserve({k})");
                self.maps[c].0.reserve(k);
                ensure!(self.maps[c].0.capacity() >= n + k, "reserve({k}) left capacity {}", self.maps[c].0.capacity());
            }
            5 => {
                let k = src.len(80);
                let fit = src.bool();
                note!(cx, "shrink fit={fit} to {k}");
                if fit {
                    self.maps[c].0.shrink_to_fit();
                } else {
                    self.maps[c].0.shrink_to(k);
                }
            }
            6 => {
                let to = src.usize(self.maps.len());
                note!(cx, "clone into map {to}");
                let copy = self.maps[c].0.clone();
                let m = self.clone_model(&copy)?;
                self.maps[to] = (copy, m);
            }
            7 => {
                let to = src.usize(self.maps.len());
                if to != c {
                    note!(cx, "clone_from map {c} to {to}");
                    let (a, b) = if to < c {
                        let (x, y) = self.maps.split_at_mut(c);
                        (&mut x[to].0, &y[0].0)
                    } else {
                        let (x, y) = self.maps.split_at_mut(to);
                        (&mut y[0].0, &x[c].0)
                    };
                    a.clone_from(b);
                    let copy = std::mem::take(&mut self.maps[to].0);
                    let m = self.clone_model(&copy)?;
                    self.maps[to] = (copy, m);
                }
            }
            8 => {
                let to = src.usize(self.maps.len());
                note!(cx, "eql with map {to}");
                let r = t!(self, self.maps[c].0.eql(&self.maps[to].0, &mut self.e, &mut self.g));
                let strip = |m: &Model| m.iter().map(|(k, p)| (*k, p.v)).collect::<Vec<_>>();
                same!(r, strip(&self.maps[c].1) == strip(&self.maps[to].1), "eql");
            }
            9 => {
                let k = src.len(40);
                note!(cx, "extend with {k} pairs");
                let mut items = vec![];
                let mut states = vec![self.model().clone()];
                for _ in 0..k {
                    let core = u.any(src);
                    let v = self.val();
                    let key = Key::new(core);
                    let mut m = states.last().unwrap().clone();
                    let serial = m.get(&core.id).map_or(key.serial(), |p| p.serial);
                    m.insert(core.id, P { serial, v });
                    states.push(m);
                    items.push((key, Val::new(v)));
                }
                // with a size hint that is exact, or none at all
                let hinted = src.bool();
                arm_at(self.fail_at);
                let (map, e, g) = (&mut self.maps[c].0, &mut self.e, &mut self.g);
                let r = if hinted { map.extend(items, e, g) } else { map.extend(items.into_iter().filter(|_| true), e, g) };
                let fired = disarm();
                if let Err(Fault(x)) = r {
                    ensure!(fired && x == self.fail_at, "extend failed with {x}");
                    // some prefix of the pairs went in
                    let now = read(&self.maps[c].0)?;
                    match states.iter().find(|m| **m == now) {
                        Some(m) => self.maps[c].1 = m.clone(),
                        None => return Err("a failing extend left something other than a prefix".to_string()),
                    }
                    return Ok(Step::Raised);
                }
                ensure!(!fired, "an error raised by a callback was swallowed");
                self.maps[c].1 = states.pop().unwrap();
            }
            10 => {
                let k = src.len(40);
                note!(cx, "from_iter of {k} pairs");
                let mut items = vec![];
                let mut m = Model::new();
                for _ in 0..k {
                    let core = u.any(src);
                    let v = self.val();
                    let key = Key::new(core);
                    let serial = m.get(&core.id).map_or(key.serial(), |p: &P| p.serial);
                    m.insert(core.id, P { serial, v });
                    items.push((key, Val::new(v)));
                }
                let map = t!(self, Map::from_iter(items, &mut self.e, &mut self.g));
                self.maps[c] = (map, m);
            }
            11 => {
                let how = src.below(5);
                note!(cx, "consuming iterator {how}");
                let (map, m) = std::mem::replace(&mut self.maps[c], (Map::default(), Model::new()));
                match how {
                    0 => {
                        let want = m.iter().map(|(id, p)| (*id, *p)).collect();
                        uwalk(src, "into_iter", Conv(map.into_iter(), |(k, v): (Key, Val)| (k.core.id, P { serial: k.serial(), v: v.v })), want)?;
                    }
                    1 => {
                        let want = m.iter().map(|(id, p)| (*id, p.serial)).collect();
                        uwalk(src, "into_keys", Conv(map.into_keys(), |k: Key| (k.core.id, k.serial())), want)?;
                    }
                    2 => {
                        let want = m.values().map(|p| p.v).collect();
                        uwalk(src, "into_values", Conv(map.into_values(), |v: Val| v.v), want)?;
                    }
                    _ => {
                        // abandoned half way
                        let take = src.len(n);
                        let mut it = map.into_iter();
                        for _ in 0..take {
                            let (k, v) = it.next().ok_or("into_iter ended early")?;
                            same!(m.get(&k.core.id), Some(&P { serial: k.serial(), v: v.v }), "pair of into_iter");
                        }
                    }
                }
            }
            12 => {
                let how = src.below(5);
                note!(cx, "borrowing iterator {how}");
                let delta = 1 + src.below(5) as u32;
                let (map, m) = &mut self.maps[c];
                match how {
                    0 => {
                        let it = map.iter();
                        let want: Vec<(u32, P)> = m.iter().map(|(id, p)| (*id, *p)).collect();
                        let again = it.clone();
                        let conv = |(k, v): (&Key, &Val)| (k.core.id, P { serial: k.serial(), v: v.v });
                        uwalk(src, "iter", Conv(it, conv), want.clone())?;
                        uwalk(src, "cloned iter", Conv(again, conv), want)?;
                    }
                    1 => uwalk(src, "keys", Conv(map.keys(), |k: &Key| k.serial()), m.values().map(|p| p.serial).collect())?,
                    2 => uwalk(src, "values", Conv(map.values(), |v: &Val| v.v), m.values().map(|p| p.v).collect())?,
                    3 => {
                        for (k, v) in map.iter_mut() {
                            v.v = v.v.wrapping_add(delta + k.core.id);
                        }
                        for (id, p) in m.iter_mut() {
                            p.v = p.v.wrapping_add(delta + id);
                        }
                    }
                    _ => {
                        for v in map.values_mut() {
                            v.v = v.v.wrapping_add(delta);
                        }
                        for p in m.values_mut() {
                            p.v = p.v.wrapping_add(delta);
                        }
                    }
                }
            }
            13 => {
                // a partial walk of an iterator that hands out changes
                let take = src.len(n + 1);
                note!(cx, "iter_mut over {take}");
                let (map, m) = &mut self.maps[c];
                let mut it = map.iter_mut();
                for i in 0..take {
                    same!(it.len(), n - i.min(n), "length of iter_mut");
                    match it.next() {
                        Some((k, v)) => {
                            v.v = v.v.wrapping_add(3);
                            let p = m.get_mut(&k.core.id).ok_or("iter_mut yields an absent key")?;
                            p.v = p.v.wrapping_add(3);
                        }
                        None => ensure!(i >= n, "iter_mut ended after {i} of {n}"),
                    }
                }
            }
            14 => {
                // a run of insertions
                let k = src.len(u.size as usize);
                let from = src.below(u.size as u64) as u32;
                let step = src.pick(&[1u32, 1, 3, 7]);
                note!(cx, "insert a run of {k} keys from k{from} step {step}");
                for j in 0..k as u32 {
                    let core = u.core((from + j * step) % u.size);
                    let v = self.val();
                    let key = Key::new(core);
                    let serial = key.serial();
                    let (map, m) = &mut self.maps[c];
                    let at = m.get(&core.id).copied();
                    let old = map.insert(key, Val::new(v), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                    same!(old.map(|o| o.v), at.map(|p| p.v), "insert of {core:?}");
                    m.insert(core.id, P { serial: at.map_or(serial, |p| p.serial), v });
                }
            }
            15 => {
                let k = src.len(n);
                let skip = src.usize(n.max(1));
                note!(cx, "remove a run of {k} keys after {skip}");
                let ids: Vec<u32> = self.model().keys().copied().cycle().skip(skip).take(k).collect();
                for id in ids {
                    let (map, m) = &mut self.maps[c];
                    let r = map.remove(&u.core(id), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                    same!(r.map(|r| r.v), m.remove(&id).map(|p| p.v), "remove of k{id}");
                    self.removed += 1;
                }
            }
            16 => {
                // a queue: remove the oldest, insert the next, never growing
                let k = src.len(200);
                note!(cx, "churn {k} times");
                let size = self.maps[c].0.allocation_size();
                let mut id = src.below(u.size as u64) as u32;
                for _ in 0..k {
                    let (map, m) = &mut self.maps[c];
                    if let Some((&first, _)) = m.iter().next() {
                        let r = map.remove(&u.core(first), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                        same!(r.map(|r| r.v), m.remove(&first).map(|p| p.v), "remove of k{first}");
                    }
                    self.next += 1;
                    let v = self.next;
                    let core = u.core(id);
                    id = (id + 1) % u.size;
                    let key = Key::new(core);
                    let serial = key.serial();
                    let at = m.get(&core.id).copied();
                    let old = map.insert(key, Val::new(v), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                    same!(old.map(|o| o.v), at.map(|p| p.v), "insert of {core:?}");
                    m.insert(core.id, P { serial: at.map_or(serial, |p| p.serial), v });
                }
                if k > 60 && self.maps[c].0.allocation_size() == size && size > 0 {
                    cx.label("churned without a new allocation");
                }
                self.removed += k;
            }
            _ => {
                note!(cx, "format");
                let (map, m) = &self.maps[c];
                let text = format!("{map:?}");
                same!(text.matches(": v").count(), m.len(), "pairs in {text}");
                for (id, p) in m {
                    let one = format!("k{id}#{}: v{}", p.serial, p.v);
                    ensure!(text.contains(&one), "{one} is not in {text}");
                }
            }
        }
        self.track();
        Ok(Step::Done)
    }

    /// The model of a copy of the current map: other instances, same ids and values.
    fn clone_model(&self, copy: &Map) -> Result<Model, String> {
        let m = read(copy)?;
        let strip = |m: &Model| m.iter().map(|(k, p)| (*k, p.v)).collect::<Vec<_>>();
        same!(strip(&m), strip(&self.maps[self.cur].1), "the copy");
        Ok(m)
    }
}

/// What a map holds.
pub fn read(map: &Map) -> Result<Model, String> {
    let mut m = Model::new();
    for (k, v) in map.iter() {
        if m.insert(k.core.id, P { serial: k.serial(), v: v.v }).is_some() {
            return Err(format!("the map yields {k:?} twice"));
        }
    }
    Ok(m)
}

/// An exact-size iterator whose items are converted.
pub struct Conv<I, F>(pub I, pub F);

impl<I: Iterator, F: FnMut(I::Item) -> T, T> Iterator for Conv<I, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.next().map(&mut self.1)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
    fn fold<B, G: FnMut(B, T) -> B>(mut self, init: B, mut g: G) -> B {
        let f = &mut self.1;
        self.0.fold(init, |b, x| g(b, f(x)))
    }
    fn count(self) -> usize {
        self.0.count()
    }
}
impl<I: ExactSizeIterator, F: FnMut(I::Item) -> T, T> ExactSizeIterator for Conv<I, F> {
    fn len(&self) -> usize {
        self.0.len()
    }
}

/// C11: everything, without faults.
pub fn history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut n = 0;
    while src.more(24) && n < 120 {
        src.begin();
        if s.maps.len() > 1 && src.chance(1, 6) {
            s.cur = src.usize(s.maps.len());
        }
        let r = match src.weighted(&[5, 3, 4]) {
            0 => s.core_op(src, cx),
            1 => s.entry_op(src, cx),
            _ => s.bulk_op(src, cx),
        };
        src.end();
        ensure!(r? == Step::Done, "an operation failed without a raising callback");
        n += 1;
        if s.model().len() < 60 || n % 4 == 0 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    if n >= 5 && s.max_len > 14 && s.removed > 0 {
        cx.nontrivial();
    }
    if s.max_len > 112 {
        cx.label("more than 112 pairs");
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// C15: equality raises.
pub fn fault_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(30) && n < 120 {
        src.begin();
        let inject = src.chance(1, 2);
        let reach = src.pick(&[2u64, 2, 12]);
        s.fail_at = if inject { 1 + src.below(reach) } else { 0 };
        if inject {
            note!(cx, "-- comparison {} of the next operation raises", s.fail_at);
        }
        let r = match src.below(8) {
            0 | 1 => s.bulk_op(src, cx),
            2 | 3 => s.entry_op(src, cx),
            _ => s.core_op(src, cx),
        };
        src.end();
        disarm();
        s.fail_at = 0;
        n += 1;
        let step = r?;
        if step == Step::Raised {
            raised += 1;
            note!(cx, "   raised");
        }
        if s.model().len() < 60 || n % 4 == 0 || step == Step::Raised && s.model().len() < 400 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    for _ in 0..raised {
        cx.label("errors raised and reported");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// C14: panics out of callbacks.
pub fn panic_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::small(src, 150);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(24) && n < 100 {
        src.begin();
        if s.maps.len() > 1 && src.chance(1, 6) {
            s.cur = src.usize(s.maps.len());
        }
        let only = src.pick(&[None, Some("hash"), Some("hash"), Some("eql"), Some("clone"), Some("pred"), Some("drop")]);
        let inject = src.chance(2, 3);
        let reach = src.pick(&[3u64, 20, 100]);
        let at = 1 + src.below(reach);
        let kind = src.below(3);
        if inject {
            note!(cx, "-- callback {at} ({only:?}) of the next operation panics");
            arm(at, Kind::Panic, only);
        }
        let before: Vec<Model> = s.maps.iter().map(|m| m.1.clone()).collect();
        let r = pbt::catch(|| match kind {
            0 => s.core_op(src, cx),
            1 => s.entry_op(src, cx),
            _ => s.bulk_op(src, cx),
        });
        src.end();
        disarm();
        n += 1;
        match r {
            Ok(r) => {
                r?;
            }
            Err(m) if m.contains("injected panic") => {
                raised += 1;
                note!(cx, "   panicked");
                noticed()?;
                let held: i64 = s.maps.iter().map(|x| 2 * x.0.iter().count() as i64).sum();
                if only == Some("drop") {
                    // a drop that panics may leak what was still to be dropped
                    ensure!(live() >= held, "{} instances are alive but the maps hold {held}", live());
                    cx.label("panics out of a drop");
                    for i in 0..s.maps.len() {
                        let m = std::mem::take(&mut s.maps[i].0);
                        drop(m);
                    }
                    noticed()?;
                    return Ok(cx.nontrivial());
                }
                same!(live(), held, "live keys and values after a panic");
                for i in 0..s.maps.len() {
                    let now = read(&s.maps[i].0)?;
                    if kind != 2 && only == Some("eql") {
                        same!(now, before[i], "map {i} after a panicking comparison");
                    }
                    s.maps[i].1 = now;
                }
                // nothing may appear from nowhere in an operation on one key
                if kind != 2 {
                    let (a, b) = (&s.maps[s.cur].1, &before[s.cur]);
                    let extra = a.keys().filter(|k| !b.contains_key(k)).count();
                    ensure!(extra <= 1, "{extra} pairs appeared");
                    if a.len() + 1 < b.len() {
                        cx.label("a panic while rehashing in place dropped pairs");
                    }
                }
            }
            Err(m) => return Err(m),
        }
        s.verify()?;
        s.verify_live()?;
    }
    for _ in 0..raised {
        cx.label("panics survived");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// The operators of maps whose callbacks cannot fail.
pub fn plain(src: &mut Src, cx: &mut Cx) -> R {
    type Plain = HashMap<u64, u64, (), (), ()>;
    let mut a = BTreeMap::new();
    let n = src.len(30);
    for _ in 0..n {
        a.insert(src.below(40), src.below(3));
    }
    let mut b = a.clone();
    let edits = src.len(2);
    for _ in 0..edits {
        let k = src.below(40);
        if src.bool() {
            b.remove(&k);
        } else {
            b.insert(k, src.below(3));
        }
    }
    note!(cx, "{a:?} {b:?}");
    let build = |m: &BTreeMap<u64, u64>, rev: bool| {
        let mut v: Vec<(u64, u64)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        if rev {
            v.reverse();
        }
        Plain::from_iter(v, &mut (), &mut ()).map_err(|_| "from_iter failed".to_string())
    };
    let (ma, mb) = (build(&a, false)?, build(&b, src.bool())?);
    same!(ma == mb, a == b, "==");
    same!(ma != mb, a != b, "!=");
    same!(mb == ma, a == b, "== the other way");
    let e = &mut ();
    same!(ma.eql(&mb, e, &mut ()), Ok(a == b), "eql");
    let keys = |m: &BTreeMap<u64, u64>| {
        let mut s = hashbrown::HashSet::<u64, (), (), ()>::new();
        for k in m.keys() {
            let _ = s.insert(*k, &mut (), &mut ());
        }
        s
    };
    same!(keys(&a) == keys(&b), a.keys().eq(b.keys()), "== of sets");
    same!(keys(&a) != keys(&b), !a.keys().eq(b.keys()), "!= of sets");
    for (k, v) in &a {
        same!(ma[k], *v, "index");
    }
    let absent = (0..41).find(|k| !a.contains_key(k)).unwrap();
    ensure!(pbt::catch(|| ma[&absent]).is_err(), "indexing an absent key gives a value");
    let c: Vec<u64> = (0..4).map(|_| src.below(6)).collect();
    let arr = Plain::from_ary([(c[0], 1), (c[1], 2), (c[2], 3), (c[3], 4)], &mut (), &mut ()).map_err(|_| "from_ary failed".to_string())?;
    let mut want = BTreeMap::new();
    for (i, k) in c.iter().enumerate() {
        want.insert(*k, i as u64 + 1);
    }
    same!(arr.iter().map(|(k, v)| (*k, *v)).collect::<BTreeMap<_, _>>(), want, "from_ary");
    same!(arr.len(), want.len(), "length of from_ary");
    if a.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}
