//! Histories of the ordered set against a list of unique elements.

use crate::common::*;
use crate::rmap::arm_at;
use pbt::{Cx, R, Src, ensure, note, same};
use rubymap::RubySet;

pub type Set = RubySet<Key, Vm, Gl, Fault, Pass>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct El {
    pub id: u32,
    pub serial: u32,
}

pub struct Sys {
    pub u: Universe,
    pub sets: Vec<(Set, Vec<El>)>,
    pub cur: usize,
    pub e: Vm,
    pub g: Gl,
    pub fail_at: u64,
    pub max_len: usize,
}

#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Step {
    Done,
    Raised,
}

macro_rules! t {
    ($self:ident, $x:expr) => {{
        arm_at($self.fail_at);
        let r = $x;
        let fired = $self.fail_at != 0 && disarm();
        match r {
            Ok(v) => {
                if fired {
                    return Err("an error raised by a callback was swallowed".to_string());
                }
                v
            }
            Err(Fault(n)) => {
                if !fired || n != $self.fail_at {
                    return Err(format!("the operation failed with {n} but callback {} raised", $self.fail_at));
                }
                return Ok(Step::Raised);
            }
        }
    }};
}

fn cmp_mod(a: u32, b: u32, m: u32) -> std::cmp::Ordering {
    tick_panic("cmp");
    (a % m).cmp(&(b % m))
}

impl Sys {
    pub fn new(src: &mut Src, cx: &mut Cx, u: Universe) -> Self {
        let n = 1 + src.usize(3);
        let mut sets = vec![];
        for _ in 0..n {
            let s = if src.bool() { Set::default() } else { Set::with_capacity_and_hasher(src.usize(20), Pass) };
            sets.push((s, vec![]));
        }
        note!(cx, "universe of {} keys, hash mode {}, {n} sets", u.size, u.mode);
        let (e, g) = ctx();
        Sys { u, sets, cur: 0, e, g, fail_at: 0, max_len: 0 }
    }

    pub fn model(&self) -> &Vec<El> {
        &self.sets[self.cur].1
    }

    fn pos(&self, id: u32) -> Option<usize> {
        self.model().iter().position(|p| p.id == id)
    }

    pub fn key(&self, src: &mut Src) -> Core {
        let n = self.model().len();
        if n > 0 && src.bool() {
            let i = src.usize(n);
            self.u.core(self.model()[i].id)
        } else {
            self.u.any(src)
        }
    }

    pub fn verify(&mut self) -> R {
        breathe();
        noticed()?;
        let u = self.u;
        let (e, g) = (&mut self.e, &mut self.g);
        for (w, (set, m)) in self.sets.iter().enumerate() {
            same!(set.len(), m.len(), "len of set {w}");
            same!(set.is_empty(), m.is_empty(), "is_empty of set {w}");
            let got: Vec<El> = set.iter().map(|k| El { id: k.core.id, serial: k.serial() }).collect();
            same!(got, *m, "elements of set {w}");
            for (i, p) in m.iter().enumerate() {
                let c = u.core(p.id);
                match set.get_full(&c, e, g) {
                    Ok(Some((j, k))) if j == i && k.serial() == p.serial => {}
                    r => return Err(format!("set {w}: {c:?} is at {i} but looking it up gives {r:?}")),
                }
            }
            let stride = (u.size / 40).max(1);
            let mut id = 0;
            while id < u.size {
                if !m.iter().any(|p| p.id == id) {
                    match set.contains(&u.core(id), e, g) {
                        Ok(false) => {}
                        r => return Err(format!("set {w}: k{id} is absent but contains gives {r:?}")),
                    }
                }
                id += stride;
            }
        }
        noticed()
    }

    pub fn verify_live(&self) -> R {
        let expect: i64 = self.sets.iter().map(|m| m.1.len() as i64).sum();
        same!(live(), expect, "live elements");
        noticed()
    }

    fn track(&mut self) {
        self.max_len = self.max_len.max(self.model().len());
    }

    /// Operations on a single element.
    pub fn single(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let k = self.key(src);
        let at = self.pos(k.id);
        let n = self.model().len();
        let (e, g) = (&mut self.e, &mut self.g);
        let (set, m) = &mut self.sets[c];
        match src.weighted(&[14, 5, 4, 3, 6, 6, 6, 4, 4, 4, 4, 4, 3, 3, 3, 3, 3]) {
            0 => {
                note!(cx, "insert({k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.insert(key, e, g));
                same!(r, at.is_none(), "insert");
                if r {
                    m.push(El { id: k.id, serial });
                }
            }
            1 => {
                note!(cx, "insert_full({k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.insert_full(key, e, g));
                same!(r, (at.unwrap_or(n), at.is_none()), "insert_full");
                if r.1 {
                    m.push(El { id: k.id, serial });
                }
            }
            2 => {
                let mut i = src.usize(n + 1);
                note!(cx, "insert_before({i}, {k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.insert_before(i, key, e, g));
                match at {
                    Some(p) => {
                        if i > p {
                            i -= 1;
                        }
                        let x = m.remove(p);
                        m.insert(i, x);
                    }
                    None => m.insert(i, El { id: k.id, serial }),
                }
                same!(r, (i, at.is_none()), "insert_before");
            }
            3 => {
                let i = src.usize(if at.is_some() { n } else { n + 1 });
                note!(cx, "shift_insert({i}, {k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.shift_insert(i, key, e, g));
                same!(r, at.is_none(), "shift_insert");
                match at {
                    Some(p) => {
                        let x = m.remove(p);
                        m.insert(i, x);
                    }
                    None => m.insert(i, El { id: k.id, serial }),
                }
            }
            4 => {
                let full = src.bool();
                note!(cx, "replace({k:?}) full={full}");
                let key = Key::new(k);
                let serial = key.serial();
                let old = if full {
                    let (i, old) = t!(self, set.replace_full(key, e, g));
                    same!(i, at.unwrap_or(n), "index of replace_full");
                    old
                } else {
                    t!(self, set.replace(key, e, g))
                };
                same!(old.map(|o| o.serial()), at.map(|i| m[i].serial), "replaced element");
                match at {
                    Some(i) => m[i].serial = serial,
                    None => m.push(El { id: k.id, serial }),
                }
            }
            5 => {
                let how = src.below(3);
                note!(cx, "shift removal {how} of {k:?}");
                let r = match how {
                    0 => t!(self, set.shift_remove(&k, e, g)),
                    1 => {
                        let r = t!(self, set.shift_take(&k, e, g));
                        same!(r.as_ref().map(|r| r.serial()), at.map(|i| m[i].serial), "shift_take");
                        r.is_some()
                    }
                    _ => {
                        let r = t!(self, set.shift_remove_full(&k, e, g));
                        same!(r.as_ref().map(|r| (r.0, r.1.serial())), at.map(|i| (i, m[i].serial)), "shift_remove_full");
                        r.is_some()
                    }
                };
                same!(r, at.is_some(), "shift removal");
                if let Some(i) = at {
                    m.remove(i);
                }
            }
            6 => {
                let how = src.below(3);
                note!(cx, "swap removal {how} of {k:?}");
                let r = match how {
                    0 => t!(self, set.swap_remove(&k, e, g)),
                    1 => {
                        let r = t!(self, set.swap_take(&k, e, g));
                        same!(r.as_ref().map(|r| r.serial()), at.map(|i| m[i].serial), "swap_take");
                        r.is_some()
                    }
                    _ => {
                        let r = t!(self, set.swap_remove_full(&k, e, g));
                        same!(r.as_ref().map(|r| (r.0, r.1.serial())), at.map(|i| (i, m[i].serial)), "swap_remove_full");
                        r.is_some()
                    }
                };
                same!(r, at.is_some(), "swap removal");
                if let Some(i) = at {
                    m.swap_remove(i);
                }
            }
            7 => {
                note!(cx, "get({k:?})");
                let r = t!(self, set.get(&k, e, g));
                same!(r.map(|r| r.serial()), at.map(|i| m[i].serial), "get");
            }
            8 => {
                note!(cx, "get_index_of({k:?}), contains");
                let r = t!(self, set.get_index_of(&k, e, g));
                same!(r, at, "get_index_of");
                let r = t!(self, set.contains(&k, e, g));
                same!(r, at.is_some(), "contains");
            }
            9 => {
                note!(cx, "pop()");
                let r = t!(self, set.pop(e, g));
                same!(r.map(|r| r.serial()), m.pop().map(|p| p.serial), "pop");
            }
            10 => {
                let i = src.usize(n + 2);
                note!(cx, "shift_remove_index({i})");
                let r = t!(self, set.shift_remove_index(i, e, g));
                let want = (i < n).then(|| m.remove(i).serial);
                same!(r.map(|r| r.serial()), want, "shift_remove_index");
            }
            11 => {
                let i = src.usize(n + 2);
                note!(cx, "swap_remove_index({i})");
                let r = t!(self, set.swap_remove_index(i, e, g));
                let want = (i < n).then(|| m.swap_remove(i).serial);
                same!(r.map(|r| r.serial()), want, "swap_remove_index");
            }
            12 => {
                if n > 0 {
                    let (from, to) = (src.usize(n), src.usize(n));
                    note!(cx, "move_index({from}, {to})");
                    t!(self, set.move_index(from, to, e, g));
                    let p = m.remove(from);
                    m.insert(to, p);
                }
            }
            13 => {
                let i = src.usize(n + 2);
                note!(cx, "get_index({i}), first, last");
                same!(set.get_index(i).map(|k| k.serial()), m.get(i).map(|p| p.serial), "get_index");
                same!(set.first().map(|k| k.serial()), m.first().map(|p| p.serial), "first");
                same!(set.last().map(|k| k.serial()), m.last().map(|p| p.serial), "last");
            }
            14 => {
                if !m.is_sorted_by_key(|p| p.id) {
                    return Ok(Step::Done);
                }
                note!(cx, "insert_sorted({k:?})");
                let key = Key::new(k);
                let serial = key.serial();
                let r = t!(self, set.insert_sorted(key, e, g));
                match m.binary_search_by(|p| p.id.cmp(&k.id)) {
                    Ok(j) => same!(r, (j, false), "insert_sorted"),
                    Err(j) => {
                        same!(r, (j, true), "insert_sorted");
                        m.insert(j, El { id: k.id, serial });
                    }
                }
            }
            15 => {
                let i = n + 1 + src.usize(2);
                note!(cx, "insertion at {i} of {n} (out of bounds)");
                let r = pbt::catch(|| set.insert_before(i, Key::new(k), e, g).is_ok());
                ensure!(r.is_err(), "an insertion beyond the end was accepted");
            }
            _ => {
                let cnt = src.range(1, 14) as u32;
                let from = src.below(self.u.size as u64) as u32;
                note!(cx, "insert {cnt} elements from k{from}");
                for j in 0..cnt {
                    let k = self.u.core((from + j) % self.u.size);
                    let key = Key::new(k);
                    let serial = key.serial();
                    let new = !m.iter().any(|p| p.id == k.id);
                    let r = t!(self, set.insert(key, e, g));
                    same!(r, new, "insert");
                    if new {
                        m.push(El { id: k.id, serial });
                    }
                }
            }
        }
        self.track();
        Ok(Step::Done)
    }

    pub fn bulk(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let n = self.model().len();
        let o = (c + 1) % self.sets.len();
        let (e, g) = (&mut self.e, &mut self.g);
        match src.below(17) {
            0 => {
                let a = src.usize(n + 1);
                let b = a + src.usize(n - a + 1);
                let front = src.len(b - a);
                let back = src.len(b - a - front);
                note!(cx, "drain({a}..{b}), {front} from the front and {back} from the back");
                let (set, m) = &mut self.sets[c];
                let mut d = set.drain(a..b, e, g).map_err(|f| format!("{f:?}"))?;
                let mut want: std::collections::VecDeque<El> = m.drain(a..b).collect();
                for _ in 0..front {
                    same!(d.next().map(|k| k.serial()), want.pop_front().map(|p| p.serial), "front of the drain");
                }
                for _ in 0..back {
                    same!(d.next_back().map(|k| k.serial()), want.pop_back().map(|p| p.serial), "back of the drain");
                }
                same!(d.len(), want.len(), "rest of the drain");
            }
            1 => {
                let at = src.usize(n + 2);
                note!(cx, "truncate({at})");
                let (set, m) = &mut self.sets[c];
                t!(self, set.truncate(at, e, g));
                m.truncate(at);
            }
            2 => {
                let at = src.usize(n + 1);
                note!(cx, "split_off({at})");
                let (set, m) = &mut self.sets[c];
                let other = set.split_off(at, e, g).map_err(|f| format!("{f:?}"))?;
                let om = m.split_off(at);
                if self.sets.len() < 3 {
                    self.sets.push((other, om));
                } else {
                    let i = src.usize(3);
                    self.sets[i] = (other, om);
                }
            }
            3 => {
                let m3 = src.range(1, 4) as u32;
                let salt = src.below(4) as u32;
                note!(cx, "retain((id+{salt}) % {m3} == 0)");
                let (set, m) = &mut self.sets[c];
                set.retain(|k| {
                    tick_panic("pred");
                    (k.core.id + salt) % m3 == 0
                });
                m.retain(|p| (p.id + salt) % m3 == 0);
            }
            4 => {
                note!(cx, "reverse()");
                let (set, m) = &mut self.sets[c];
                set.reverse();
                m.reverse();
            }
            5 => {
                let md = src.range(1, 6) as u32;
                let how = src.below(5);
                note!(cx, "sort {how} by id % {md}");
                let (set, m) = &mut self.sets[c];
                match how {
                    0 => {
                        set.sort_by(|a, b| cmp_mod(a.core.id, b.core.id, md));
                        m.sort_by_key(|p| p.id % md);
                    }
                    1 => {
                        set.sort_by_cached_key(|k| {
                            tick_panic("cmp");
                            k.core.id % md
                        });
                        m.sort_by_key(|p| p.id % md);
                    }
                    2 => {
                        set.sort_unstable_by(|a, b| cmp_mod(a.core.id, b.core.id, md).then(b.core.id.cmp(&a.core.id)));
                        m.sort_by(|a, b| (a.id % md).cmp(&(b.id % md)).then(b.id.cmp(&a.id)));
                    }
                    3 => {
                        set.sort_unstable();
                        m.sort_by_key(|p| p.id);
                    }
                    _ => {
                        set.sort();
                        m.sort_by_key(|p| p.id);
                    }
                }
            }
            6 => {
                let cnt = src.len(20);
                let ks: Vec<Core> = (0..cnt).map(|_| self.u.any(src)).collect();
                note!(cx, "extend({ks:?})");
                let keys: Vec<Key> = ks.iter().map(|k| Key::new(*k)).collect();
                let els: Vec<El> = keys.iter().map(|k| El { id: k.core.id, serial: k.serial() }).collect();
                let (set, m) = &mut self.sets[c];
                set.extend(keys, e, g).map_err(|f| format!("{f:?}"))?;
                for x in els {
                    if !m.iter().any(|p| p.id == x.id) {
                        m.push(x);
                    }
                }
            }
            7 | 8 => {
                if o != c {
                    note!(cx, "append(set {o}) to set {c}");
                    let (mut other, om) = std::mem::take(&mut self.sets[o]);
                    let cap = other.capacity();
                    let (set, _) = &mut self.sets[c];
                    set.append(&mut other, e, g).map_err(|f| format!("{f:?}"))?;
                    ensure!(other.capacity() >= cap, "append took the capacity of the appended set");
                    self.sets[o] = (other, vec![]);
                    let m = &mut self.sets[c].1;
                    for x in om {
                        if !m.iter().any(|p| p.id == x.id) {
                            m.push(x);
                        }
                    }
                }
            }
            9..=13 => {
                // relations between two sets; they may share many elements
                let (a, am) = &self.sets[c];
                let (b, bm) = &self.sets[o];
                let has = |m: &[El], id: u32| m.iter().any(|p| p.id == id);
                let sub = am.iter().all(|p| has(bm, p.id));
                let sup = bm.iter().all(|p| has(am, p.id));
                let dis = !am.iter().any(|p| has(bm, p.id));
                note!(cx, "relations between set {c} and set {o}: subset {sub}, superset {sup}, disjoint {dis}");
                let r = t!(self, a.is_subset(b, e, g));
                same!(r, sub, "is_subset");
                let r = t!(self, a.is_superset(b, e, g));
                same!(r, sup, "is_superset");
                let r = t!(self, a.is_disjoint(b, e, g));
                same!(r, dis, "is_disjoint");
                let r = t!(self, rubymap::RubyEql::eql(a, b, e, g));
                same!(r, sub && sup, "set equality");
                if sub && !am.is_empty() && c != o {
                    cx.label("subset relation holds between non-empty sets");
                }
            }
            14 => {
                // make the other set share elements with this one
                if o != c && n > 0 {
                    let keep = src.range(1, n);
                    note!(cx, "copy {keep} elements of set {c} to set {o}");
                    let from = src.usize(n);
                    for j in 0..keep {
                        let id = self.sets[c].1[(from + j) % n].id;
                        let key = Key::new(self.u.core(id));
                        let serial = key.serial();
                        let (set, m) = &mut self.sets[o];
                        let new = !m.iter().any(|p| p.id == id);
                        let r = set.insert(key, e, g).map_err(|f| format!("{f:?}"))?;
                        same!(r, new, "insert");
                        if new {
                            m.push(El { id, serial });
                        }
                    }
                }
            }
            15 => {
                let how = src.below(3);
                note!(cx, "consume and rebuild, way {how}");
                let (set, mut m) = std::mem::take(&mut self.sets[c]);
                let items: Vec<Key> = match how {
                    0 => set.into_iter().collect(),
                    1 => {
                        m.sort_by_key(|p| p.id % 3);
                        set.sorted_by(|a, b| cmp_mod(a.core.id, b.core.id, 3)).collect()
                    }
                    _ => set.into_boxed_slice().into_iter().collect(),
                };
                same!(items.iter().map(|k| k.serial()).collect::<Vec<_>>(), m.iter().map(|p| p.serial).collect::<Vec<_>>(), "consumed elements");
                let set = Set::from_iter(items, e, g).map_err(|f| format!("{f:?}"))?;
                self.sets[c] = (set, m);
            }
            _ => {
                let (set, m) = &mut self.sets[c];
                match src.below(4) {
                    0 => {
                        note!(cx, "clear()");
                        set.clear();
                        m.clear();
                    }
                    1 => {
                        note!(cx, "shrink_to_fit()");
                        set.shrink_to_fit();
                    }
                    _ => {
                        let k = src.len(30);
                        note!(cx, "reserve({k})");
                        set.reserve(k);
                        ensure!(set.capacity() >= m.len() + k, "capacity after reserve({k})");
                    }
                }
            }
        }
        self.track();
        Ok(Step::Done)
    }
}

pub fn history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mean = src.pick(&[14u64, 40, 80]);
    let mut n = 0;
    while src.more(mean) && n < 250 {
        src.begin();
        if src.chance(1, 6) {
            s.cur = src.usize(s.sets.len());
        }
        let r = if src.below(5) < 3 { s.single(src, cx) } else { s.bulk(src, cx) };
        src.end();
        r?;
        n += 1;
        let big: usize = s.sets.iter().map(|x| x.1.len()).sum();
        if big < 60 || n % 4 == 0 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    if s.max_len > 8 && n >= 5 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live elements after dropping everything");
    noticed()
}

/// C03 for sets.
pub fn fault_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(30) && n < 120 {
        src.begin();
        if src.chance(1, 8) {
            s.cur = src.usize(s.sets.len());
        }
        let inject = src.chance(1, 2);
        let reach = if src.bool() { 2 } else { 12 };
        s.fail_at = if inject { 1 + src.below(reach) } else { 0 };
        if s.fail_at != 0 {
            note!(cx, "-- callback {} of the next operation raises", s.fail_at);
        }
        let r = s.single(src, cx);
        src.end();
        s.fail_at = 0;
        let step = r?;
        n += 1;
        if step == Step::Raised {
            raised += 1;
            note!(cx, "   raised");
        }
        if s.model().len() < 60 || n % 4 == 0 || step == Step::Raised && s.model().len() < 400 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    for _ in 0..raised {
        cx.label("errors raised and reported");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live elements after dropping everything");
    noticed()
}

/// C04 for sets: panics out of callbacks.
pub fn panic_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::small(src, 70);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(24) && n < 100 {
        src.begin();
        if src.chance(1, 8) {
            s.cur = src.usize(s.sets.len());
        }
        let only = src.pick(&[None, Some("hash"), Some("eql"), Some("cmp"), Some("pred")]);
        let inject = src.chance(2, 3);
        let reach = src.pick(&[3u64, 20]);
        let at = 1 + src.below(reach);
        let bulk = src.bool();
        if inject {
            note!(cx, "-- callback {at} ({only:?}) of the next operation panics");
            arm(at, Kind::Panic, only);
        }
        let r = pbt::catch(|| if bulk { s.bulk(src, cx) } else { s.single(src, cx) });
        src.end();
        disarm();
        n += 1;
        match r {
            Ok(r) => {
                r?;
            }
            Err(m) if m.contains("injected panic") => {
                raised += 1;
                note!(cx, "   panicked");
                noticed()?;
                let held: i64 = s.sets.iter().map(|x| x.0.iter().count() as i64).sum();
                same!(live(), held, "live elements after a panic");
                if bulk {
                    // order and lookups may be anything after a panicking bulk operation;
                    // the elements are still there and the set can be emptied and refilled
                    for i in 0..s.sets.len() {
                        let (set, _) = std::mem::take(&mut s.sets[i]);
                        let fresh = src.bool();
                        let (set, items) = if fresh {
                            let items: Vec<Key> = set.into_iter().collect();
                            (Set::default(), items)
                        } else {
                            let mut set = set;
                            set.clear();
                            (set, vec![])
                        };
                        let mut set = set;
                        let m: Vec<El> = items.iter().map(|k| El { id: k.core.id, serial: k.serial() }).collect();
                        set.extend(items, &mut s.e, &mut s.g).map_err(|f| format!("{f:?}"))?;
                        s.sets[i] = (set, m);
                    }
                }
            }
            Err(m) => return Err(m),
        }
        s.verify()?;
        s.verify_live()?;
    }
    for _ in 0..raised {
        cx.label("panics survived");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live elements after dropping everything");
    noticed()
}
