//! Histories of the unordered set against sorted sets.

use crate::common::*;
use crate::hmap::{Conv, Step, uwalk};
use crate::rmap::arm_at;
use hashbrown::HashSet;
use hashbrown::hash_set::Entry;
use pbt::{Cx, R, Src, ensure, note, same};
use ruby_traits::RubyEql;
use std::collections::BTreeMap;

pub type Set = HashSet<Key, Vm, Gl, Fault, Pass>;
/// Which instance of each id the set holds.
pub type Model = BTreeMap<u32, u32>;

pub struct Sys {
    pub u: Universe,
    pub sets: Vec<(Set, Model)>,
    pub cur: usize,
    pub e: Vm,
    pub g: Gl,
    pub fail_at: u64,
    pub max_len: usize,
}

macro_rules! t {
    ($self:ident, $x:expr) => {{
        arm_at($self.fail_at);
        let r = $x;
        let fired = $self.fail_at != 0 && disarm();
        match r {
            Ok(v) => {
                if fired {
                    return Err("an error raised by a callback was swallowed".to_string());
                }
                v
            }
            Err(Fault(n)) => {
                if !fired || n != $self.fail_at {
                    return Err(format!("the operation failed with {n} but callback {} raised", $self.fail_at));
                }
                return Ok(Step::Raised);
            }
        }
    }};
}

pub fn read(set: &Set) -> Result<Model, String> {
    let mut m = Model::new();
    for k in set.iter() {
        if m.insert(k.core.id, k.serial()).is_some() {
            return Err(format!("the set yields {k:?} twice"));
        }
    }
    Ok(m)
}

impl Sys {
    pub fn new(src: &mut Src, cx: &mut Cx, u: Universe) -> Self {
        let n = 1 + src.usize(3);
        let mut sets = vec![];
        for _ in 0..n {
            let s = match src.below(3) {
                0 => Set::default(),
                1 => Set::with_hasher(Pass),
                _ => Set::with_capacity_and_hasher(src.usize(40), Pass),
            };
            sets.push((s, Model::new()));
        }
        note!(cx, "universe of {} keys, hash mode {}, {n} sets", u.size, u.mode);
        let (e, g) = ctx();
        Sys { u, sets, cur: 0, e, g, fail_at: 0, max_len: 0 }
    }

    pub fn model(&self) -> &Model {
        &self.sets[self.cur].1
    }

    pub fn key(&self, src: &mut Src) -> Core {
        let n = self.model().len();
        if n > 0 && src.bool() {
            let i = src.usize(n);
            self.u.core(*self.model().keys().nth(i).unwrap())
        } else {
            self.u.any(src)
        }
    }

    pub fn verify(&mut self) -> R {
        breathe();
        noticed()?;
        let u = self.u;
        let (e, g) = (&mut self.e, &mut self.g);
        for (w, (set, m)) in self.sets.iter().enumerate() {
            same!(set.len(), m.len(), "len of set {w}");
            same!(set.is_empty(), m.is_empty(), "is_empty of set {w}");
            ensure!(set.capacity() >= set.len(), "capacity {} of set {w} is below its length", set.capacity());
            same!(read(set)?, *m, "contents of set {w}");
            for (id, serial) in m.iter() {
                match set.get(&u.core(*id), e, g) {
                    Ok(Some(k)) if k.serial() == *serial => {}
                    r => return Err(format!("set {w}: k{id} is there but looking it up gives {r:?}")),
                }
            }
            let stride = (u.size / 40).max(1);
            let mut id = 0;
            while id < u.size {
                if !m.contains_key(&id) {
                    match set.contains(&u.core(id), e, g) {
                        Ok(false) => {}
                        r => return Err(format!("set {w}: k{id} is absent but contains gives {r:?}")),
                    }
                }
                id += stride;
            }
        }
        noticed()
    }

    pub fn verify_live(&self) -> R {
        let expect: i64 = self.sets.iter().map(|m| m.1.len() as i64).sum();
        same!(live(), expect, "live elements");
        noticed()
    }

    pub fn single(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let k = self.key(src);
        let (e, g) = (&mut self.e, &mut self.g);
        let (set, m) = &mut self.sets[c];
        let at = m.get(&k.id).copied();
        match src.weighted(&[14, 4, 4, 5, 5, 6, 6, 6, 10, 2]) {
            0 => {
                note!(cx, "insert({k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.insert(key, e, g));
                same!(r, at.is_none(), "insert");
                m.entry(k.id).or_insert(serial);
            }
            1 => {
                note!(cx, "contains({k:?})");
                same!(t!(self, set.contains(&k, e, g)), at.is_some(), "contains");
            }
            2 => {
                note!(cx, "get({k:?})");
                same!(t!(self, set.get(&k, e, g)).map(|k| k.serial()), at, "get");
            }
            3 => {
                note!(cx, "get_or_insert({k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.get_or_insert(key, e, g));
                same!(r.serial(), at.unwrap_or(serial), "get_or_insert");
                m.entry(k.id).or_insert(serial);
            }
            4 => {
                note!(cx, "get_or_insert_with({k:?})");
                let mut made = None;
                let r = t!(
                    self,
                    set.get_or_insert_with(
                        &k,
                        |q| {
                            tick_panic("pred");
                            let key = Key::new(*q);
                            made = Some(key.serial());
                            key
                        },
                        e,
                        g
                    )
                );
                let got = r.serial();
                same!(made.is_some(), at.is_none(), "whether get_or_insert_with made an element");
                same!(Some(got), at.or(made), "get_or_insert_with");
                m.entry(k.id).or_insert(got);
            }
            5 => {
                note!(cx, "replace({k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.replace(key, e, g));
                same!(r.map(|k| k.serial()), at, "replace");
                m.insert(k.id, serial);
            }
            6 => {
                note!(cx, "remove({k:?})");
                same!(t!(self, set.remove(&k, e, g)), at.is_some(), "remove");
                m.remove(&k.id);
            }
            7 => {
                note!(cx, "take({k:?})");
                same!(t!(self, set.take(&k, e, g)).map(|k| k.serial()), at, "take");
                m.remove(&k.id);
            }
            8 => {
                let how = src.below(5);
                note!(cx, "entry({k:?}) how {how}");
                let key = Key::new(k);
                let serial = key.serial();
                let held = at.unwrap_or(serial);
                let entry = t!(self, set.entry(key, e, g));
                same!(entry.get().serial(), held, "element of the entry");
                match how {
                    0 => {
                        let o = entry.insert();
                        same!(o.get().serial(), held, "entry insert");
                        m.insert(k.id, held);
                    }
                    1 => {
                        entry.or_insert();
                        m.insert(k.id, held);
                    }
                    2 => {
                        let o = entry.insert();
                        same!(o.remove().serial(), held, "removing the inserted entry");
                        m.remove(&k.id);
                    }
                    _ => match entry {
                        Entry::Occupied(o) => {
                            ensure!(at.is_some(), "an absent element has an occupied entry");
                            same!(o.get().serial(), held, "occupied element");
                            if how == 3 {
                                same!(o.remove().serial(), held, "occupied remove");
                                m.remove(&k.id);
                            }
                        }
                        Entry::Vacant(v) => {
                            ensure!(at.is_none(), "a present element has a vacant entry");
                            same!(v.get().serial(), serial, "vacant element");
                            if how == 3 {
                                same!(v.into_value().serial(), serial, "into_value");
                            } else {
                                same!(v.insert().get().serial(), serial, "vacant insert");
                                m.insert(k.id, serial);
                            }
                        }
                    },
                }
            }
            _ => {
                if at.is_none() {
                    note!(cx, "insert_unique_unchecked({k:?})");
                    let key = Key::new(k);
                    let serial = key.serial();
                    // SAFETY: the element is absent.
                    let r = unsafe { set.insert_unique_unchecked(key) };
                    same!(r.serial(), serial, "insert_unique_unchecked");
                    m.insert(k.id, serial);
                }
            }
        }
        self.max_len = self.max_len.max(self.model().len());
        Ok(Step::Done)
    }

    pub fn bulk(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let u = self.u;
        let n = self.model().len();
        let to = src.usize(self.sets.len());
        match src.weighted(&[1, 3, 4, 4, 2, 2, 3, 2, 8, 4, 3, 4, 10, 6, 8, 1]) {
            0 => {
                note!(cx, "clear");
                self.sets[c].0.clear();
                self.sets[c].1.clear();
            }
            1 => {
                let take = src.len(n + 2);
                note!(cx, "drain, taking {take}");
                let (set, m) = &mut self.sets[c];
                let mut got = Model::new();
                {
                    let mut d = set.drain();
                    for i in 0..take {
                        same!(d.len(), n.saturating_sub(i), "length of the drain");
                        match d.next() {
                            Some(k) => {
                                ensure!(got.insert(k.core.id, k.serial()).is_none(), "drained {k:?} twice");
                            }
                            None => ensure!(i >= n, "the drain ended after {i} of {n}"),
                        }
                    }
                    if src.chance(1, 3) {
                        got = d.fold(got, |mut g, k| {
                            g.insert(k.core.id, k.serial());
                            g
                        });
                        same!(got, *m, "drained by fold");
                    }
                }
                for (id, s) in &got {
                    same!(m.get(id), Some(s), "drained element");
                }
                m.clear();
            }
            2 => {
                let md = 1 + src.below(4) as u32;
                let r = src.below(md as u64) as u32;
                note!(cx, "retain(id % {md} == {r})");
                let (set, m) = &mut self.sets[c];
                let mut seen = vec![];
                set.retain(|k| {
                    tick_panic("pred");
                    seen.push(k.core.id);
                    k.core.id % md == r
                });
                seen.sort();
                same!(seen, m.keys().copied().collect::<Vec<_>>(), "elements shown by retain");
                m.retain(|id, _| *id % md == r);
            }
            3 => {
                let md = 1 + src.below(4) as u32;
                let r = src.below(md as u64) as u32;
                let take = src.len(n + 2);
                note!(cx, "extract_if(id % {md} == {r}), taking {take}");
                let (set, m) = &mut self.sets[c];
                let mut shown = vec![];
                let mut got = vec![];
                {
                    let mut it = set.extract_if(|k| {
                        tick_panic("pred");
                        shown.push(k.core.id);
                        k.core.id % md == r
                    });
                    for _ in 0..take {
                        let (lo, hi) = it.size_hint();
                        ensure!(lo == 0 && hi.is_some_and(|h| h <= n), "size_hint ({lo}, {hi:?}) of extract_if on {n}");
                        match it.next() {
                            Some(k) => got.push((k.core.id, k.serial())),
                            None => break,
                        }
                    }
                }
                for (id, s) in &got {
                    ensure!(id % md == r, "extract_if yields k{id}");
                    same!(m.remove(id), Some(*s), "element yielded by extract_if");
                }
                ensure!(shown.iter().filter(|id| *id % md == r).count() == got.len(), "extract_if lost an element");
                if got.len() < take {
                    same!(shown.len(), n, "elements shown by extract_if");
                }
            }
            4 => {
                let k = src.len(80);
                note!(cx, "reserve({k})");
                self.sets[c].0.reserve(k);
                ensure!(self.sets[c].0.capacity() >= n + k, "reserve({k}) left capacity {}", self.sets[c].0.capacity());
            }
            5 => {
                let k = src.len(80);
                let fit = src.bool();
                note!(cx, "shrink fit={fit} to {k}");
                if fit {
                    self.sets[c].0.shrink_to_fit();
                } else {
                    self.sets[c].0.shrink_to(k);
                }
            }
            6 => {
                note!(cx, "clone into set {to}");
                let copy = self.sets[c].0.clone();
                let m = read(&copy)?;
                ensure!(m.keys().eq(self.model().keys()), "the copy differs");
                self.sets[to] = (copy, m);
            }
            7 => {
                if to != c {
                    note!(cx, "clone_from set {c} to {to}");
                    let mut target = std::mem::take(&mut self.sets[to].0);
                    let r = pbt::catch(|| target.clone_from(&self.sets[c].0));
                    self.sets[to].0 = target;
                    if let Err(m) = r {
                        std::panic::resume_unwind(Box::new(m));
                    }
                    let m = read(&self.sets[to].0)?;
                    ensure!(m.keys().eq(self.model().keys()), "clone_from gives another set");
                    self.sets[to].1 = m;
                }
            }
            8 => {
                let how = src.below(3);
                note!(cx, "compare with set {to}, how {how}");
                let (e, g) = (&mut self.e, &mut self.g);
                let (a, b) = (&self.sets[c], &self.sets[to]);
                match how {
                    0 => same!(t!(self, a.0.is_subset(&b.0, e, g)), a.1.keys().all(|k| b.1.contains_key(k)), "is_subset"),
                    1 => same!(t!(self, a.0.is_superset(&b.0, e, g)), b.1.keys().all(|k| a.1.contains_key(k)), "is_superset"),
                    _ => same!(t!(self, a.0.eql(&b.0, e, g)), a.1.keys().eq(b.1.keys()), "eql"),
                }
            }
            9 => {
                let k = src.len(40);
                note!(cx, "extend with {k} elements");
                let mut items = vec![];
                let mut states = vec![self.model().clone()];
                for _ in 0..k {
                    let core = u.any(src);
                    let key = Key::new(core);
                    let mut m = states.last().unwrap().clone();
                    m.entry(core.id).or_insert(key.serial());
                    states.push(m);
                    items.push(key);
                }
                let hinted = src.bool();
                arm_at(self.fail_at);
                let (set, e, g) = (&mut self.sets[c].0, &mut self.e, &mut self.g);
                let r = if hinted { set.extend(items, e, g) } else { set.extend(items.into_iter().filter(|_| true), e, g) };
                let fired = disarm();
                if let Err(Fault(x)) = r {
                    ensure!(fired && x == self.fail_at, "extend failed with {x}");
                    let now = read(&self.sets[c].0)?;
                    ensure!(states.contains(&now), "a failing extend left something other than a prefix");
                    self.sets[c].1 = now;
                    return Ok(Step::Raised);
                }
                ensure!(!fired, "an error raised by a callback was swallowed");
                self.sets[c].1 = states.pop().unwrap();
            }
            10 => {
                let k = src.len(40);
                note!(cx, "from_iter of {k} elements");
                let mut items = vec![];
                let mut m = Model::new();
                for _ in 0..k {
                    let core = u.any(src);
                    let key = Key::new(core);
                    m.entry(core.id).or_insert(key.serial());
                    items.push(key);
                }
                let set = t!(self, Set::from_iter(items, &mut self.e, &mut self.g));
                self.sets[c] = (set, m);
            }
            11 => {
                let how = src.below(4);
                note!(cx, "iterator {how}");
                match how {
                    0 | 1 => {
                        let (set, m) = &self.sets[c];
                        let want: Vec<u32> = m.values().copied().collect();
                        let it = if how == 0 { set.iter() } else { set.into_iter() };
                        let again = it.clone();
                        uwalk(src, "iter", Conv(it, |k: &Key| k.serial()), want.clone())?;
                        uwalk(src, "cloned iter", Conv(again, |k: &Key| k.serial()), want)?;
                    }
                    2 => {
                        let (set, m) = std::mem::replace(&mut self.sets[c], (Set::default(), Model::new()));
                        uwalk(src, "into_iter", Conv(set.into_iter(), |k: Key| k.serial()), m.values().copied().collect())?;
                    }
                    _ => {
                        let (set, m) = std::mem::replace(&mut self.sets[c], (Set::default(), Model::new()));
                        let take = src.len(n);
                        let mut it = set.into_iter();
                        for _ in 0..take {
                            let k = it.next().ok_or("into_iter ended early")?;
                            same!(m.get(&k.core.id), Some(&k.serial()), "element of into_iter");
                        }
                    }
                }
            }
            12 => {
                let k = src.len(u.size as usize);
                let from = src.below(u.size as u64) as u32;
                let step = src.pick(&[1u32, 1, 3, 7]);
                note!(cx, "insert a run of {k} elements from k{from} step {step}");
                for j in 0..k as u32 {
                    let core = u.core((from + j * step) % u.size);
                    let key = Key::new(core);
                    let serial = key.serial();
                    let (set, m) = &mut self.sets[c];
                    let r = set.insert(key, &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                    same!(r, !m.contains_key(&core.id), "insert of {core:?}");
                    m.entry(core.id).or_insert(serial);
                }
            }
            13 => {
                let k = src.len(n);
                let skip = src.usize(n.max(1));
                note!(cx, "remove a run of {k} elements after {skip}");
                let ids: Vec<u32> = self.model().keys().copied().cycle().skip(skip).take(k).collect();
                for id in ids {
                    let (set, m) = &mut self.sets[c];
                    let r = set.remove(&u.core(id), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                    same!(r, m.remove(&id).is_some(), "remove of k{id}");
                }
            }
            14 => {
                let k = src.len(200);
                note!(cx, "churn {k} times");
                let mut id = src.below(u.size as u64) as u32;
                for _ in 0..k {
                    let (set, m) = &mut self.sets[c];
                    if let Some((&first, _)) = m.iter().next() {
                        let r = set.take(&u.core(first), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                        same!(r.map(|k| k.serial()), m.remove(&first), "take of k{first}");
                    }
                    let core = u.core(id);
                    id = (id + 1) % u.size;
                    let key = Key::new(core);
                    let serial = key.serial();
                    let old = set.replace(key, &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                    same!(old.map(|k| k.serial()), m.insert(core.id, serial), "replace of {core:?}");
                }
            }
            _ => {
                note!(cx, "format");
                let (set, m) = &self.sets[c];
                let text = format!("{set:?}");
                same!(text.matches('k').count(), m.len(), "elements in {text}");
                for (id, s) in m {
                    ensure!(text.contains(&format!("k{id}#{s}")), "k{id}#{s} is not in {text}");
                }
            }
        }
        self.max_len = self.max_len.max(self.model().len());
        Ok(Step::Done)
    }
}

/// C12.
pub fn history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut n = 0;
    while src.more(24) && n < 120 {
        src.begin();
        if s.sets.len() > 1 && src.chance(1, 5) {
            s.cur = src.usize(s.sets.len());
        }
        let r = if src.chance(3, 5) { s.single(src, cx) } else { s.bulk(src, cx) };
        src.end();
        ensure!(r? == Step::Done, "an operation failed without a raising callback");
        n += 1;
        if s.model().len() < 60 || n % 4 == 0 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    if n >= 5 && s.max_len > 14 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// C15.
pub fn fault_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(30) && n < 120 {
        src.begin();
        let inject = src.chance(1, 2);
        let reach = src.pick(&[2u64, 2, 12]);
        s.fail_at = if inject { 1 + src.below(reach) } else { 0 };
        if inject {
            note!(cx, "-- comparison {} of the next operation raises", s.fail_at);
        }
        let r = if src.chance(3, 4) { s.single(src, cx) } else { s.bulk(src, cx) };
        src.end();
        disarm();
        s.fail_at = 0;
        n += 1;
        let step = r?;
        if step == Step::Raised {
            raised += 1;
            note!(cx, "   raised");
        }
        if s.model().len() < 60 || n % 4 == 0 || step == Step::Raised && s.model().len() < 400 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    for _ in 0..raised {
        cx.label("errors raised and reported");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// C14.
pub fn panic_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::small(src, 150);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(24) && n < 100 {
        src.begin();
        if s.sets.len() > 1 && src.chance(1, 6) {
            s.cur = src.usize(s.sets.len());
        }
        let only = src.pick(&[None, Some("hash"), Some("hash"), Some("eql"), Some("clone"), Some("pred")]);
        let inject = src.chance(2, 3);
        let reach = src.pick(&[3u64, 20, 100]);
        let at = 1 + src.below(reach);
        let single = src.bool();
        if inject {
            note!(cx, "-- callback {at} ({only:?}) of the next operation panics");
            arm(at, Kind::Panic, only);
        }
        let before: Vec<Model> = s.sets.iter().map(|m| m.1.clone()).collect();
        let r = pbt::catch(|| if single { s.single(src, cx) } else { s.bulk(src, cx) });
        src.end();
        disarm();
        n += 1;
        match r {
            Ok(r) => {
                r?;
            }
            Err(m) if m.contains("injected panic") => {
                raised += 1;
                note!(cx, "   panicked");
                noticed()?;
                let held: i64 = s.sets.iter().map(|x| x.0.iter().count() as i64).sum();
                same!(live(), held, "live elements after a panic");
                for i in 0..s.sets.len() {
                    let now = read(&s.sets[i].0)?;
                    if single && only == Some("eql") {
                        same!(now, before[i], "set {i} after a panicking comparison");
                    }
                    s.sets[i].1 = now;
                }
            }
            Err(m) => return Err(m),
        }
        s.verify()?;
        s.verify_live()?;
    }
    for _ in 0..raised {
        cx.label("panics survived");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}
