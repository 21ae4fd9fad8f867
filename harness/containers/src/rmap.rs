//! Histories of the ordered map against a list of pairs.

use crate::common::*;
use pbt::{Cx, R, Src, ensure, note, same};
use rubymap::RubyMap;
use rubymap::map::Entry;

pub type Map = RubyMap<Key, Val, Vm, Gl, Fault, Pass>;

/// One pair of the model: key id, key instance, value.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct P {
    pub id: u32,
    pub serial: u32,
    pub v: u32,
}

/// What became of one step.
#[derive(PartialEq, Eq, Debug, Clone, Copy)]
pub enum Step {
    Done,
    /// The injected error came out of the operation.
    Raised,
}

pub struct Sys {
    pub u: Universe,
    pub maps: Vec<(Map, Vec<P>)>,
    pub cur: usize,
    pub e: Vm,
    pub g: Gl,
    next: u32,
    /// Injected failure for the next operation.
    pub fail_at: u64,
    /// Largest and smallest sizes seen (for the non-triviality rule).
    pub max_len: usize,
    pub removed: u64,
    pub promoted: bool,
    pub demoted: bool,
}

/// Runs a fallible map operation of a step, checking faults.
macro_rules! t {
    ($self:ident, $x:expr) => {{
        arm_at($self.fail_at);
        let r = $x;
        let fired = $self.fail_at != 0 && disarm();
        match r {
            Ok(v) => {
                if fired {
                    return Err("an error raised by a callback was swallowed".to_string());
                }
                v
            }
            Err(Fault(n)) => {
                if !fired || n != $self.fail_at {
                    return Err(format!("the operation failed with {n} but callback {} raised", $self.fail_at));
                }
                return Ok(Step::Raised);
            }
        }
    }};
}

impl Sys {
    pub fn new(src: &mut Src, cx: &mut Cx, u: Universe) -> Self {
        let map = match src.below(3) {
            0 => Map::with_hasher(Pass),
            1 => Map::default(),
            _ => Map::with_capacity_and_hasher(src.usize(20), Pass),
        };
        note!(cx, "universe of {} keys, hash mode {}, capacity {}", u.size, u.mode, map.capacity());
        let (e, g) = ctx();
        Sys {
            u,
            maps: vec![(map, vec![])],
            cur: 0,
            e,
            g,
            next: 0,
            fail_at: 0,
            max_len: 0,
            removed: 0,
            promoted: false,
            demoted: false,
        }
    }

    pub fn val(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    pub fn model(&self) -> &Vec<P> {
        &self.maps[self.cur].1
    }

    fn pos(&self, id: u32) -> Option<usize> {
        self.model().iter().position(|p| p.id == id)
    }

    /// A key, likely to be present when `present` is chosen.
    pub fn key(&self, src: &mut Src) -> Core {
        let n = self.model().len();
        if n > 0 && src.bool() {
            let i = src.usize(n);
            self.u.core(self.model()[i].id)
        } else {
            self.u.any(src)
        }
    }

    /// An index, sometimes one past the end or beyond.
    fn index(&self, src: &mut Src, slack: usize) -> usize {
        let n = self.model().len();
        src.usize(n + 1 + slack)
    }

    pub fn track(&mut self) {
        let n = self.model().len();
        if n > 8 {
            self.promoted = true;
        } else if self.promoted && n < 8 {
            self.demoted = true;
        }
        self.max_len = self.max_len.max(n);
    }

    /// Everything observable about one map.
    pub fn verify_one(&mut self, which: usize) -> R {
        noticed()?;
        let u = self.u;
        let (e, g) = (&mut self.e, &mut self.g);
        let (map, model) = &self.maps[which];
        same!(map.len(), model.len(), "len");
        same!(map.is_empty(), model.is_empty(), "is_empty");
        ensure!(map.capacity() >= map.len(), "capacity {} < len {}", map.capacity(), map.len());
        let mut n = 0;
        for (i, (k, v)) in map.iter().enumerate() {
            let Some(p) = model.get(i) else {
                return Err(format!("iteration yields more than {} pairs", model.len()));
            };
            if k.core.id != p.id || k.serial() != p.serial || v.v != p.v {
                return Err(format!("pair {i} is {k:?} => {v:?}, expected {p:?}"));
            }
            n += 1;
        }
        same!(n, model.len(), "iterated pairs");
        for (i, p) in model.iter().enumerate() {
            let c = u.core(p.id);
            match map.get_full(&c, e, g) {
                Ok(Some((j, k, v))) => {
                    if j != i || k.serial() != p.serial || v.v != p.v {
                        return Err(format!("{c:?} found at {j} as {k:?} => {v:?}, expected {p:?} at {i}"));
                    }
                }
                r => return Err(format!("{c:?} is at {i} but looking it up gives {r:?}")),
            }
        }
        // absent keys: all of them in small universes, a stride in large ones
        let stride = (u.size / 40).max(1);
        let mut id = 0;
        while id < u.size {
            if !model.iter().any(|p| p.id == id) {
                let c = u.core(id);
                match map.get_index_of(&c, e, g) {
                    Ok(None) => {}
                    r => return Err(format!("{c:?} is absent but looking it up gives {r:?}")),
                }
            }
            id += stride;
        }
        noticed()
    }

    pub fn verify(&mut self) -> R {
        breathe();
        for i in 0..self.maps.len() {
            self.verify_one(i).map_err(|m| if self.maps.len() > 1 { format!("map {i}: {m}") } else { m })?;
        }
        Ok(())
    }

    /// The ledger must show exactly the instances held by the maps.
    pub fn verify_live(&self) -> R {
        let expect: i64 = self.maps.iter().map(|m| 2 * m.1.len() as i64).sum();
        same!(live(), expect, "live keys and values");
        noticed()
    }

    // ------------------------------------------------------------ single-pair operations

    pub fn core_op(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        match src.weighted(&[30, 6, 4, 3, 3, 6, 3, 6, 12, 10, 6, 6, 4, 3, 3, 2, 3, 4, 3, 2]) {
            0 => {
                let k = self.u.any(src);
                let v = self.val();
                note!(cx, "insert({k:?}, v{v})");
                let key = Key::new(k);
                let serial = key.serial();
                let at = self.pos(k.id);
                let old = t!(self, self.maps[c].0.insert(key, Val::new(v), &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                match at {
                    Some(i) => {
                        same!(old.as_ref().map(|o| o.v), Some(m[i].v), "insert of a present key");
                        m[i].v = v;
                    }
                    None => {
                        same!(old.is_none(), true, "insert of a new key");
                        m.push(P { id: k.id, serial, v });
                    }
                }
            }
            1 => {
                let k = self.key(src);
                let v = self.val();
                note!(cx, "insert_full({k:?}, v{v})");
                let key = Key::new(k);
                let serial = key.serial();
                let at = self.pos(k.id);
                let (i, old) = t!(self, self.maps[c].0.insert_full(key, Val::new(v), &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                match at {
                    Some(j) => {
                        same!(i, j, "index of a present key");
                        same!(old.as_ref().map(|o| o.v), Some(m[i].v), "old value");
                        m[i].v = v;
                    }
                    None => {
                        same!(i, m.len(), "index of a new key");
                        same!(old.is_none(), true, "old value");
                        m.push(P { id: k.id, serial, v });
                    }
                }
            }
            2 => {
                let k = self.key(src);
                note!(cx, "get({k:?})");
                let at = self.pos(k.id);
                let r = t!(self, self.maps[c].0.get(&k, &mut self.e, &mut self.g));
                same!(r.map(|v| v.v), at.map(|i| self.maps[c].1[i].v), "get");
            }
            3 => {
                let k = self.key(src);
                note!(cx, "contains_key({k:?})");
                let at = self.pos(k.id);
                let r = t!(self, self.maps[c].0.contains_key(&k, &mut self.e, &mut self.g));
                same!(r, at.is_some(), "contains_key");
            }
            4 => {
                let k = self.key(src);
                note!(cx, "get_key_value({k:?})");
                let at = self.pos(k.id);
                let r = t!(self, self.maps[c].0.get_key_value(&k, &mut self.e, &mut self.g));
                let m = &self.maps[c].1;
                same!(
                    r.map(|(k, v)| (k.serial(), v.v)),
                    at.map(|i| (m[i].serial, m[i].v)),
                    "get_key_value"
                );
            }
            5 => {
                let k = self.key(src);
                let v = self.val();
                note!(cx, "get_mut({k:?}) = v{v}");
                let at = self.pos(k.id);
                let r = t!(self, self.maps[c].0.get_mut(&k, &mut self.e, &mut self.g));
                same!(r.is_some(), at.is_some(), "get_mut");
                if let (Some(r), Some(i)) = (r, at) {
                    *r = Val::new(v);
                    self.maps[c].1[i].v = v;
                }
            }
            6 => {
                let k = self.key(src);
                let v = self.val();
                note!(cx, "get_full_mut({k:?}) = v{v}");
                let at = self.pos(k.id);
                let (map, m) = &mut self.maps[c];
                let r = t!(self, map.get_full_mut(&k, &mut self.e, &mut self.g));
                same!(r.as_ref().map(|r| r.0), at, "get_full_mut");
                if let (Some((_, k, r)), Some(i)) = (r, at) {
                    same!(k.serial(), m[i].serial, "key of get_full_mut");
                    r.v = v;
                    m[i].v = v;
                }
            }
            7 => {
                let k = self.key(src);
                note!(cx, "get_index_of({k:?})");
                let at = self.pos(k.id);
                let r = t!(self, self.maps[c].0.get_index_of(&k, &mut self.e, &mut self.g));
                same!(r, at, "get_index_of");
            }
            8 => {
                let k = self.key(src);
                let how = src.below(3);
                note!(cx, "shift_remove {how} ({k:?})");
                let at = self.pos(k.id);
                let got = match how {
                    0 => t!(self, self.maps[c].0.shift_remove(&k, &mut self.e, &mut self.g)).map(|v| (None, None, v.v)),
                    1 => t!(self, self.maps[c].0.shift_remove_entry(&k, &mut self.e, &mut self.g))
                        .map(|(k, v)| (None, Some(k.serial()), v.v)),
                    _ => t!(self, self.maps[c].0.shift_remove_full(&k, &mut self.e, &mut self.g))
                        .map(|(i, k, v)| (Some(i), Some(k.serial()), v.v)),
                };
                let m = &mut self.maps[c].1;
                let want = at.map(|i| {
                    let p = m.remove(i);
                    ((how == 2).then_some(i), (how >= 1).then_some(p.serial), p.v)
                });
                same!(got, want, "shift_remove");
                self.removed += at.is_some() as u64;
            }
            9 => {
                let k = self.key(src);
                let how = src.below(3);
                note!(cx, "swap_remove {how} ({k:?})");
                let at = self.pos(k.id);
                let got = match how {
                    0 => t!(self, self.maps[c].0.swap_remove(&k, &mut self.e, &mut self.g)).map(|v| (None, None, v.v)),
                    1 => t!(self, self.maps[c].0.swap_remove_entry(&k, &mut self.e, &mut self.g))
                        .map(|(k, v)| (None, Some(k.serial()), v.v)),
                    _ => t!(self, self.maps[c].0.swap_remove_full(&k, &mut self.e, &mut self.g))
                        .map(|(i, k, v)| (Some(i), Some(k.serial()), v.v)),
                };
                let m = &mut self.maps[c].1;
                let want = at.map(|i| {
                    let p = m.swap_remove(i);
                    ((how == 2).then_some(i), (how >= 1).then_some(p.serial), p.v)
                });
                same!(got, want, "swap_remove");
                self.removed += at.is_some() as u64;
            }
            10 => {
                let i = self.index(src, 1);
                note!(cx, "shift_remove_index({i})");
                let r = t!(self, self.maps[c].0.shift_remove_index(i, &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                let want = (i < m.len()).then(|| m.remove(i));
                same!(r.map(|(k, v)| (k.serial(), v.v)), want.map(|p| (p.serial, p.v)), "shift_remove_index");
                self.removed += want.is_some() as u64;
            }
            11 => {
                let i = self.index(src, 1);
                note!(cx, "swap_remove_index({i})");
                let r = t!(self, self.maps[c].0.swap_remove_index(i, &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                let want = (i < m.len()).then(|| m.swap_remove(i));
                same!(r.map(|(k, v)| (k.serial(), v.v)), want.map(|p| (p.serial, p.v)), "swap_remove_index");
                self.removed += want.is_some() as u64;
            }
            12 => {
                note!(cx, "pop()");
                let r = t!(self, self.maps[c].0.pop(&mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                same!(r.map(|(k, v)| (k.serial(), v.v)), m.pop().map(|p| (p.serial, p.v)), "pop");
            }
            13 => {
                // the first pair, as Hash#shift does
                note!(cx, "first / last");
                let (map, m) = &self.maps[c];
                same!(map.first().map(|(k, v)| (k.serial(), v.v)), m.first().map(|p| (p.serial, p.v)), "first");
                same!(map.last().map(|(k, v)| (k.serial(), v.v)), m.last().map(|p| (p.serial, p.v)), "last");
            }
            14 => {
                let i = self.index(src, 2);
                let v = self.val();
                note!(cx, "get_index_mut({i}) = v{v}");
                let (map, m) = &mut self.maps[c];
                same!(map.get_index(i).map(|(k, v)| (k.serial(), v.v)), m.get(i).map(|p| (p.serial, p.v)), "get_index");
                match (map.get_index_mut(i), m.get_mut(i)) {
                    (Some((k, r)), Some(p)) => {
                        same!(k.serial(), p.serial, "get_index_mut");
                        r.v = v;
                        p.v = v;
                    }
                    (None, None) => {}
                    _ => return Err("get_index_mut disagrees about the length".into()),
                }
            }
            15 => {
                let n = self.model().len();
                if n == 0 {
                    return Ok(Step::Done);
                }
                let i = src.usize(n);
                let v = self.val();
                note!(cx, "map[{i}] = v{v}");
                let (map, m) = &mut self.maps[c];
                same!(map[i].v, m[i].v, "Index");
                map[i].v = v;
                m[i].v = v;
            }
            16 => {
                let v = self.val();
                note!(cx, "values_mut / iter_mut add");
                let (map, m) = &mut self.maps[c];
                let by_values = src.bool();
                if by_values {
                    for (j, r) in map.values_mut().enumerate() {
                        r.v = v + j as u32;
                    }
                } else {
                    for (j, (_, r)) in map.iter_mut().enumerate() {
                        r.v = v + j as u32;
                    }
                }
                for (j, p) in m.iter_mut().enumerate() {
                    p.v = v + j as u32;
                }
                self.next = v + m.len() as u32;
            }
            17 => {
                // a burst of new keys, to cross the thresholds
                let most = src.pick(&[12, 12, 30, 160]);
                let n = src.range(1, most) as u32;
                let from = src.below(self.u.size as u64) as u32;
                note!(cx, "insert {n} keys from k{from}");
                for j in 0..n {
                    let k = self.u.core((from + j) % self.u.size);
                    let v = self.val();
                    let key = Key::new(k);
                    let serial = key.serial();
                    let at = self.pos(k.id);
                    let old = t!(self, self.maps[c].0.insert(key, Val::new(v), &mut self.e, &mut self.g));
                    let m = &mut self.maps[c].1;
                    match at {
                        Some(i) => {
                            same!(old.as_ref().map(|o| o.v), Some(m[i].v), "insert of a present key");
                            m[i].v = v;
                        }
                        None => {
                            same!(old.is_none(), true, "insert of a new key");
                            m.push(P { id: k.id, serial, v });
                        }
                    }
                }
            }
            18 => {
                // a burst of removals
                let n = src.range(1, 8);
                let shift = src.bool();
                note!(cx, "remove {n} pairs, shift={shift}");
                for _ in 0..n {
                    let len = self.model().len();
                    if len == 0 {
                        break;
                    }
                    let i = src.usize(len);
                    let k = self.u.core(self.model()[i].id);
                    let (want, got);
                    if shift {
                        let r = t!(self, self.maps[c].0.shift_remove_full(&k, &mut self.e, &mut self.g));
                        got = r.map(|(i, k, v)| (i, k.serial(), v.v));
                        want = m_remove(&mut self.maps[c].1, i, true);
                    } else {
                        let r = t!(self, self.maps[c].0.swap_remove_full(&k, &mut self.e, &mut self.g));
                        got = r.map(|(i, k, v)| (i, k.serial(), v.v));
                        want = m_remove(&mut self.maps[c].1, i, false);
                    }
                    same!(got, Some((i, want.serial, want.v)), "removal");
                    self.removed += 1;
                }
            }
            _ => {
                note!(cx, "clear()");
                let (map, m) = &mut self.maps[c];
                let cap = map.capacity();
                map.clear();
                m.clear();
                ensure!(map.capacity() >= cap, "clear gave up capacity: {} < {cap}", map.capacity());
            }
        }
        self.track();
        Ok(Step::Done)
    }

    // ------------------------------------------------------------ bulk and reordering operations

    fn range(&self, src: &mut Src) -> (usize, usize) {
        let n = self.model().len();
        let a = src.usize(n + 1);
        let b = a + src.usize(n - a + 1);
        (a, b)
    }

    pub fn bulk_op(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        match src.weighted(&[6, 4, 6, 6, 5, 5, 6, 5, 4, 4, 8, 7, 6, 5, 4, 4, 3, 3, 3, 3, 2, 3]) {
            0 => {
                let (a, b) = self.range(src);
                let take_front = src.len(b - a);
                let take_back = src.len(b - a - take_front);
                note!(cx, "drain({a}..{b}) taking {take_front} from the front, {take_back} from the back");
                arm_at(self.fail_at);
                let (map, m) = &mut self.maps[c];
                let mut d = match map.drain(a..b, &mut self.e, &mut self.g) {
                    Ok(d) => d,
                    Err(f) => return Err(format!("drain failed: {f:?}")),
                };
                let fired = disarm();
                ensure!(!fired, "drain called user code");
                let mut want: std::collections::VecDeque<P> = m.drain(a..b).collect();
                same!(d.len(), b - a, "length of the drain");
                for _ in 0..take_front {
                    let x = d.next().map(|(k, v)| (k.serial(), v.v));
                    same!(x, want.pop_front().map(|p| (p.serial, p.v)), "front of the drain");
                }
                for _ in 0..take_back {
                    let x = d.next_back().map(|(k, v)| (k.serial(), v.v));
                    same!(x, want.pop_back().map(|p| (p.serial, p.v)), "back of the drain");
                }
                same!(d.len(), want.len(), "remaining length of the drain");
                drop(d);
                self.removed += (b - a) as u64;
            }
            1 => {
                let n = self.index(src, 3);
                note!(cx, "truncate({n})");
                t!(self, self.maps[c].0.truncate(n, &mut self.e, &mut self.g));
                self.maps[c].1.truncate(n);
            }
            2 => {
                let at = self.index(src, 0);
                note!(cx, "split_off({at})");
                let cap = self.maps[c].0.capacity();
                let other = t!(self, self.maps[c].0.split_off(at, &mut self.e, &mut self.g));
                let om = self.maps[c].1.split_off(at);
                ensure!(self.maps[c].0.capacity() >= cap.min(self.maps[c].0.capacity()), "capacity");
                self.put(other, om, src);
            }
            3 => {
                let salt = src.below(7) as u32;
                let modulus = src.range(1, 4) as u32;
                note!(cx, "retain((id+{salt}) % {modulus} == 0), doubling nothing");
                let (map, m) = &mut self.maps[c];
                let mut seen = vec![];
                map.retain(|k, v| {
                    tick_panic("pred");
                    seen.push(k.serial());
                    let keep = (k.core.id + salt) % modulus == 0;
                    if keep {
                        v.v += 1;
                    }
                    keep
                });
                same!(seen, m.iter().map(|p| p.serial).collect::<Vec<_>>(), "pairs shown to retain");
                m.retain_mut(|p| {
                    let keep = (p.id + salt) % modulus == 0;
                    if keep {
                        p.v += 1;
                    }
                    keep
                });
            }
            4 => {
                note!(cx, "reverse()");
                let (map, m) = &mut self.maps[c];
                map.reverse();
                m.reverse();
            }
            5 => {
                let modulus = src.range(1, 6) as u32;
                let how = src.below(4);
                note!(cx, "sort {how} by id % {modulus}");
                let (map, m) = &mut self.maps[c];
                match how {
                    0 => {
                        map.sort_by(|a, _, b, _| cmp_mod(a.core.id, b.core.id, modulus));
                        m.sort_by_key(|p| p.id % modulus);
                    }
                    1 => {
                        map.sort_by_cached_key(|k, _| {
                            tick_panic("cmp");
                            k.core.id % modulus
                        });
                        m.sort_by_key(|p| p.id % modulus);
                    }
                    2 => {
                        let f = |a: u32, b: u32| cmp_mod(a, b, modulus).then(b.cmp(&a));
                        map.sort_unstable_by(|a, _, b, _| f(a.core.id, b.core.id));
                        m.sort_by(|a, b| f(a.id, b.id));
                    }
                    _ => {
                        map.sort_by(|_, a, _, b| {
                            tick_panic("cmp");
                            b.v.cmp(&a.v)
                        });
                        m.sort_by(|a, b| b.v.cmp(&a.v));
                    }
                }
            }
            6 => {
                let how = src.bool();
                note!(cx, "sort_keys unstable={how}");
                let (map, m) = &mut self.maps[c];
                if how {
                    map.sort_unstable_keys();
                } else {
                    map.sort_keys();
                }
                m.sort_by_key(|p| p.id);
            }
            7 => {
                let n = self.model().len();
                if n == 0 {
                    return Ok(Step::Done);
                }
                let (from, to) = (src.usize(n), src.usize(n));
                note!(cx, "move_index({from}, {to})");
                t!(self, self.maps[c].0.move_index(from, to, &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                let p = m.remove(from);
                m.insert(to, p);
            }
            8 => {
                let n = self.model().len();
                let from = src.usize(n + 2);
                let to = n + src.usize(2);
                note!(cx, "move_index({from}, {to}) out of bounds");
                let (map, _) = &mut self.maps[c];
                let r = pbt::catch(|| map.move_index(from, to, &mut self.e, &mut self.g));
                ensure!(r.is_err(), "an out-of-bounds move was accepted");
            }
            9 => {
                // sorted insertion: bring the map in order first
                let k = self.key(src);
                let v = self.val();
                note!(cx, "sort_keys; insert_sorted({k:?}, v{v})");
                self.maps[c].0.sort_keys();
                self.maps[c].1.sort_by_key(|p| p.id);
                let key = Key::new(k);
                let serial = key.serial();
                let (i, old) = t!(self, self.maps[c].0.insert_sorted(key, Val::new(v), &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                match m.binary_search_by(|p| p.id.cmp(&k.id)) {
                    Ok(j) => {
                        same!((i, old.map(|o| o.v)), (j, Some(m[j].v)), "insert_sorted");
                        m[j].v = v;
                    }
                    Err(j) => {
                        same!((i, old.is_none()), (j, true), "insert_sorted");
                        m.insert(j, P { id: k.id, serial, v });
                    }
                }
            }
            10 => {
                let k = self.key(src);
                let v = self.val();
                let mut i = self.index(src, 0);
                note!(cx, "insert_before({i}, {k:?}, v{v})");
                let key = Key::new(k);
                let serial = key.serial();
                let at = self.pos(k.id);
                let (j, old) = t!(self, self.maps[c].0.insert_before(i, key, Val::new(v), &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                match at {
                    Some(p) => {
                        if i > p {
                            i -= 1;
                        }
                        let mut x = m.remove(p);
                        same!((j, old.map(|o| o.v)), (i, Some(x.v)), "insert_before");
                        x.v = v;
                        m.insert(i, x);
                    }
                    None => {
                        same!((j, old.is_none()), (i, true), "insert_before");
                        m.insert(i, P { id: k.id, serial, v });
                    }
                }
            }
            11 => {
                let k = self.key(src);
                let v = self.val();
                let at = self.pos(k.id);
                let n = self.model().len();
                let i = src.usize(if at.is_some() { n } else { n + 1 });
                note!(cx, "shift_insert({i}, {k:?}, v{v})");
                let key = Key::new(k);
                let serial = key.serial();
                let old = t!(self, self.maps[c].0.shift_insert(i, key, Val::new(v), &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                match at {
                    Some(p) => {
                        let mut x = m.remove(p);
                        same!(old.map(|o| o.v), Some(x.v), "shift_insert");
                        x.v = v;
                        m.insert(i, x);
                    }
                    None => {
                        same!(old.is_none(), true, "shift_insert");
                        m.insert(i, P { id: k.id, serial, v });
                    }
                }
            }
            12 => {
                let n = src.len(24);
                let pairs: Vec<(Core, u32)> = (0..n)
                    .map(|_| {
                        let k = self.u.any(src);
                        (k, self.val())
                    })
                    .collect();
                note!(cx, "extend({pairs:?})");
                let mut serials = vec![];
                let items: Vec<(Key, Val)> = pairs
                    .iter()
                    .map(|(k, v)| {
                        let key = Key::new(*k);
                        serials.push(key.serial());
                        (key, Val::new(*v))
                    })
                    .collect();
                t!(self, self.maps[c].0.extend(items, &mut self.e, &mut self.g));
                let m = &mut self.maps[c].1;
                for ((k, v), s) in pairs.iter().zip(serials) {
                    put(m, P { id: k.id, serial: s, v: *v });
                }
            }
            13 => {
                if self.maps.len() < 2 {
                    return Ok(Step::Done);
                }
                let o = (c + 1) % self.maps.len();
                note!(cx, "append(map {o}) to map {c}");
                let (mut other, om) = std::mem::replace(&mut self.maps[o], (Map::default(), vec![]));
                t!(self, self.maps[c].0.append(&mut other, &mut self.e, &mut self.g));
                for p in om {
                    put(&mut self.maps[c].1, p);
                }
                // the appended map is left empty and usable
                self.maps[o] = (other, vec![]);
            }
            14 => {
                note!(cx, "clone()");
                let other = self.maps[c].0.clone();
                let om = renumber(&other, &self.maps[c].1)?;
                self.put(other, om, src);
            }
            15 => {
                if self.maps.len() < 2 {
                    return Ok(Step::Done);
                }
                let o = (c + 1) % self.maps.len();
                note!(cx, "map {o}.clone_from(map {c})");
                let (mut other, _) = std::mem::replace(&mut self.maps[o], (Map::default(), vec![]));
                other.clone_from(&self.maps[c].0);
                let om = renumber_from(&other, &self.maps[c].1)?;
                self.maps[o] = (other, om);
            }
            16 => {
                let n = src.len(40);
                note!(cx, "reserve({n})");
                if src.bool() {
                    self.maps[c].0.reserve(n);
                } else {
                    self.maps[c].0.reserve_exact(n);
                }
                let (map, m) = &self.maps[c];
                ensure!(map.capacity() >= m.len() + n, "capacity {} after reserving {n} on top of {}", map.capacity(), m.len());
            }
            17 => {
                let n = src.len(20);
                note!(cx, "shrink_to({n})");
                if n == 0 {
                    self.maps[c].0.shrink_to_fit();
                } else {
                    self.maps[c].0.shrink_to(n);
                }
            }
            18 if src.bool() => {
                let n = self.model().len();
                let mut ix = [0usize; 6];
                for j in 0..6 {
                    ix[j] = match src.below(12) {
                        0 if j > 0 => ix[src.usize(j)],
                        1 => src.usize(n + 2),
                        _ => (0..n).find(|x| !ix[..j].contains(x)).unwrap_or(n),
                    };
                }
                note!(cx, "get_disjoint_indices_mut({ix:?})");
                let ok = ix.iter().all(|i| *i < n) && (0..6).all(|j| !ix[..j].contains(&ix[j]));
                let (map, m) = &mut self.maps[c];
                match map.get_disjoint_indices_mut(ix) {
                    Ok(got) => {
                        ensure!(ok, "disjoint indices {ix:?} of {n} accepted");
                        for (j, (k, _)) in got.iter().enumerate() {
                            same!(k.serial(), m[ix[j]].serial, "disjoint key {j}");
                        }
                        let [(_, v1), _, _, _, _, (_, v2)] = got;
                        std::mem::swap(v1, v2);
                        let (x, y) = (m[ix[0]].v, m[ix[5]].v);
                        m[ix[0]].v = y;
                        m[ix[5]].v = x;
                    }
                    Err(_) => ensure!(!ok, "disjoint indices {ix:?} of {n} refused"),
                }
            }
            18 => {
                let (a, b) = (src.usize(12), src.usize(12));
                let n = self.model().len();
                note!(cx, "get_disjoint_indices_mut([{a}, {b}])");
                let (map, m) = &mut self.maps[c];
                match map.get_disjoint_indices_mut([a, b]) {
                    Ok([(k1, v1), (k2, v2)]) => {
                        ensure!(a < n && b < n && a != b, "disjoint indices {a}, {b} of {n} accepted");
                        same!((k1.serial(), k2.serial()), (m[a].serial, m[b].serial), "disjoint keys");
                        std::mem::swap(v1, v2);
                        let (x, y) = (m[a].v, m[b].v);
                        m[a].v = y;
                        m[b].v = x;
                    }
                    Err(_) => ensure!(a >= n || b >= n || a == b, "disjoint indices {a}, {b} of {n} refused"),
                }
            }
            19 => {
                let (a, b) = (self.key(src), self.key(src));
                if a.id == b.id {
                    return Ok(Step::Done);
                }
                note!(cx, "get_disjoint_mut([{a:?}, {b:?}])");
                let (pa, pb) = (self.pos(a.id), self.pos(b.id));
                let [x, y] = t!(self, self.maps[c].0.get_disjoint_mut([&a, &b], &mut self.e, &mut self.g));
                same!((x.is_some(), y.is_some()), (pa.is_some(), pb.is_some()), "get_disjoint_mut");
                if let (Some(x), Some(y)) = (x, y) {
                    std::mem::swap(x, y);
                    let m = &mut self.maps[c].1;
                    let (i, j) = (pa.unwrap(), pb.unwrap());
                    let (vi, vj) = (m[i].v, m[j].v);
                    m[i].v = vj;
                    m[j].v = vi;
                }
            }
            20 if src.bool() => {
                let how = src.below(3);
                note!(cx, "partial consumption or new keys, way {how}");
                let (map, m) = std::mem::replace(&mut self.maps[c], (Map::default(), vec![]));
                match how {
                    0 => {
                        // every key replaced by an equal one
                        let map = map.map_keys(|k| Key::new(k.core));
                        let m2 = renumber(&map, &m)?;
                        self.maps[c] = (map, m2);
                    }
                    1 => {
                        let mut it = map.into_iter();
                        let (a, b) = (src.len(m.len()), src.len(m.len()));
                        for i in 0..a {
                            same!(it.next().map(|(k, v)| (k.serial(), v.v)), m.get(i).map(|p| (p.serial, p.v)), "into_iter");
                        }
                        for i in 0..b.min(m.len() - a.min(m.len())) {
                            let p = m[m.len() - 1 - i];
                            same!(it.next_back().map(|(k, v)| (k.serial(), v.v)), Some((p.serial, p.v)), "into_iter from the back");
                        }
                    }
                    _ => {
                        let mut it = map.into_values();
                        let a = src.len(m.len());
                        for i in 0..a {
                            same!(it.next().map(|v| v.v), m.get(i).map(|p| p.v), "into_values");
                        }
                    }
                }
            }
            20 => {
                let how = src.below(4);
                note!(cx, "consume and rebuild, way {how}");
                let (map, m) = std::mem::replace(&mut self.maps[c], (Map::default(), vec![]));
                let want: Vec<(u32, u32)> = m.iter().map(|p| (p.serial, p.v)).collect();
                let items: Vec<(Key, Val)> = match how {
                    0 => map.into_iter().collect(),
                    1 => {
                        let keys: Vec<Key> = map.clone().into_keys().collect();
                        let vals: Vec<Val> = map.into_values().collect();
                        // the keys are clones; take over their instances
                        let got: Vec<u32> = keys.iter().map(|k| k.core.id).collect();
                        same!(got, m.iter().map(|p| p.id).collect::<Vec<_>>(), "into_keys");
                        let items: Vec<(Key, Val)> = keys.into_iter().zip(vals).collect();
                        let m2: Vec<P> = items
                            .iter()
                            .map(|(k, v)| P { id: k.core.id, serial: k.serial(), v: v.v })
                            .collect();
                        same!(m2.iter().map(|p| p.v).collect::<Vec<_>>(), m.iter().map(|p| p.v).collect::<Vec<_>>(), "into_values");
                        self.maps[c].1 = m2;
                        let map = Map::from_iter(items, &mut self.e, &mut self.g);
                        self.maps[c].0 = map.map_err(|f| format!("{f:?}"))?;
                        return Ok(Step::Done);
                    }
                    2 => {
                        let modulus = 3;
                        let it = map.sorted_by(|a, _, b, _| cmp_mod(a.core.id, b.core.id, modulus));
                        let items: Vec<(Key, Val)> = it.collect();
                        let mut m2 = m.clone();
                        m2.sort_by_key(|p| p.id % modulus);
                        self.maps[c].1 = m2.clone();
                        let got: Vec<(u32, u32)> = items.iter().map(|(k, v)| (k.serial(), v.v)).collect();
                        same!(got, m2.iter().map(|p| (p.serial, p.v)).collect::<Vec<_>>(), "sorted_by");
                        let map = Map::from_iter(items, &mut self.e, &mut self.g);
                        self.maps[c].0 = map.map_err(|f| format!("{f:?}"))?;
                        return Ok(Step::Done);
                    }
                    _ => {
                        let b = map.into_boxed_slice();
                        same!(b.len(), m.len(), "boxed slice");
                        b.into_iter().collect()
                    }
                };
                same!(items.iter().map(|(k, v)| (k.serial(), v.v)).collect::<Vec<_>>(), want, "consumed pairs");
                self.maps[c].1 = m;
                let map = Map::from_iter(items, &mut self.e, &mut self.g);
                self.maps[c].0 = map.map_err(|f| format!("{f:?}"))?;
            }
            _ => {
                // an index beyond the end is refused without effect
                let n = self.model().len();
                let i = n + 1 + src.usize(3);
                let k = self.u.any(src);
                let how = src.bool();
                note!(cx, "insertion of {k:?} at {i} of {n} (out of bounds)");
                let (map, _) = &mut self.maps[c];
                let r = pbt::catch(|| {
                    if how {
                        map.insert_before(i, Key::new(k), Val::new(0), &mut self.e, &mut self.g).is_ok()
                    } else {
                        map.shift_insert(i, Key::new(k), Val::new(0), &mut self.e, &mut self.g).is_ok()
                    }
                });
                ensure!(r.is_err(), "an insertion beyond the end was accepted");
            }
        }
        self.track();
        Ok(Step::Done)
    }

    /// Keeps a second or third map, or replaces one.
    fn put(&mut self, map: Map, m: Vec<P>, src: &mut Src) {
        if self.maps.len() < 3 {
            self.maps.push((map, m));
        } else {
            let i = src.usize(self.maps.len());
            self.maps[i] = (map, m);
        }
        if src.chance(1, 3) {
            self.cur = self.maps.len() - 1;
        }
    }

    // ------------------------------------------------------------ entry handles

    pub fn entry_op(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let n = self.model().len();
        if src.chance(1, 4) {
            return self.indexed_op(src, cx);
        }
        let k = self.key(src);
        let at = self.pos(k.id);
        let v = self.val();
        let key = Key::new(k);
        let serial = key.serial();
        let how = src.below(18);
        note!(cx, "entry({k:?}) operation {how} v{v}, currently at {at:?}");
        let (map, m) = &mut self.maps[c];
        let entry = t!(self, map.entry(key, &mut self.e, &mut self.g));
        same!(entry.index(), at.unwrap_or(n), "index of the entry");
        let new = P { id: k.id, serial, v };
        // an occupied entry shows the stored key, a vacant one the searched key
        same!(entry.key().serial(), at.map_or(serial, |i| m[i].serial), "key of the entry");
        match how {
            0 => {
                let r = entry.or_insert(Val::new(v));
                match at {
                    Some(i) => same!(r.v, m[i].v, "or_insert"),
                    None => {
                        same!(r.v, v, "or_insert");
                        m.push(new);
                    }
                }
            }
            1 => {
                let mut called = false;
                let r = entry.or_insert_with(|| {
                    called = true;
                    Val::new(v)
                });
                r.v += 1;
                same!(called, at.is_none(), "or_insert_with calls its function");
                match at {
                    Some(i) => m[i].v += 1,
                    None => m.push(P { v: v + 1, ..new }),
                }
                self.next += 1;
            }
            2 => {
                let r = entry.or_insert_with_key(|k| Val::new(k.core.id + 1_000_000));
                match at {
                    Some(i) => same!(r.v, m[i].v, "or_insert_with_key"),
                    None => m.push(P { v: k.id + 1_000_000, ..new }),
                }
            }
            3 => {
                let r = entry.or_default();
                match at {
                    Some(i) => same!(r.v, m[i].v, "or_default"),
                    None => m.push(P { v: DEFAULT, ..new }),
                }
            }
            4 => {
                let r = entry.and_modify(|x| x.v = v).or_insert_with(|| Val::new(v + 1));
                match at {
                    Some(i) => {
                        same!(r.v, v, "and_modify");
                        m[i].v = v;
                    }
                    None => {
                        same!(r.v, v + 1, "and_modify");
                        m.push(P { v: v + 1, ..new });
                    }
                }
                self.next += 1;
            }
            5 => {
                let o = entry.insert_entry(Val::new(v));
                same!(o.index(), at.unwrap_or(n), "insert_entry");
                same!(o.get().v, v, "insert_entry");
                match at {
                    Some(i) => m[i].v = v,
                    None => m.push(new),
                }
                same!(o.key().serial(), m[at.unwrap_or(n)].serial, "key of insert_entry");
                if src.bool() {
                    let i = at.unwrap_or(n);
                    let r = o.shift_remove_entry(&mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                    let p = m.remove(i);
                    same!((r.0.serial(), r.1.v), (p.serial, p.v), "removal through insert_entry");
                }
            }
            _ => match entry {
                Entry::Occupied(mut o) => {
                    let i = match at {
                        Some(i) => i,
                        None => return Err("occupied entry for an absent key".into()),
                    };
                    match how {
                        6 => {
                            let old = o.insert(Val::new(v));
                            same!(old.v, m[i].v, "insert through an occupied entry");
                            m[i].v = v;
                        }
                        7 => {
                            o.get_mut().v = v;
                            m[i].v = v;
                        }
                        8 => {
                            o.into_mut().v = v;
                            m[i].v = v;
                        }
                        9 | 10 => {
                            let r = if how == 9 {
                                o.shift_remove(&mut self.e, &mut self.g)
                            } else {
                                o.shift_remove_entry(&mut self.e, &mut self.g).map(|r| r.1)
                            };
                            let r = r.map_err(|f| format!("{f:?}"))?;
                            same!(r.v, m.remove(i).v, "shift removal through an entry");
                            self.removed += 1;
                        }
                        11 | 12 | 13 => {
                            let r = match how {
                                11 => o.swap_remove(&mut self.e, &mut self.g),
                                12 => o.swap_remove_entry(&mut self.e, &mut self.g).map(|r| r.1),
                                _ => {
                                    #[allow(deprecated)]
                                    if src.bool() {
                                        o.remove(&mut self.e, &mut self.g)
                                    } else {
                                        o.remove_entry(&mut self.e, &mut self.g).map(|r| r.1)
                                    }
                                }
                            };
                            let r = r.map_err(|f| format!("{f:?}"))?;
                            same!(r.v, m.swap_remove(i).v, "swap removal through an entry");
                            self.removed += 1;
                        }
                        14 => {
                            let to = src.usize(n);
                            note!(cx, "  move_index({to})");
                            o.move_index(to, &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                            let p = m.remove(i);
                            m.insert(to, p);
                        }
                        15 => {
                            // an entry turned into an indexed entry and back
                            let ix = rubymap::map::IndexedEntry::from(o);
                            same!(ix.index(), i, "indexed entry from an entry");
                            same!(ix.get().v, m[i].v, "indexed entry from an entry");
                            let o = rubymap::map::OccupiedEntry::from_index(ix, &mut self.e, &mut self.g)
                                .map_err(|f| format!("{f:?}"))?;
                            same!(o.index(), i, "entry from an indexed entry");
                            if src.bool() {
                                let r = o.swap_remove(&mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                                same!(r.v, m.swap_remove(i).v, "removal through a converted entry");
                            }
                        }
                        _ => {
                            same!(o.get().v, m[i].v, "get through an occupied entry");
                        }
                    }
                }
                Entry::Vacant(x) => {
                    ensure!(at.is_none(), "vacant entry for a present key");
                    same!(x.index(), n, "index of a vacant entry");
                    match how {
                        6..=8 => {
                            let r = x.insert(Val::new(v));
                            same!(r.v, v, "insert through a vacant entry");
                            m.push(new);
                        }
                        9 | 10 => {
                            let mut o = x.insert_entry(Val::new(v));
                            same!(o.index(), n, "insert_entry through a vacant entry");
                            o.get_mut().v = v + 1;
                            m.push(P { v: v + 1, ..new });
                            self.next += 1;
                        }
                        11..=14 => {
                            let i = src.usize(n + 1);
                            note!(cx, "  shift_insert({i})");
                            let r = x.shift_insert(i, Val::new(v), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                            same!(r.v, v, "shift_insert through a vacant entry");
                            m.insert(i, new);
                        }
                        15 => {
                            if m.is_sorted_by_key(|p| p.id) {
                                let (i, r) = x.insert_sorted(Val::new(v), &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                                same!(r.v, v, "insert_sorted through a vacant entry");
                                let j = m.partition_point(|p| p.id < k.id);
                                same!(i, j, "position of insert_sorted");
                                m.insert(j, new);
                            } else {
                                let k = x.into_key();
                                same!(k.serial(), serial, "into_key");
                            }
                        }
                        16 => {
                            let k = x.into_key();
                            same!(k.serial(), serial, "into_key");
                        }
                        _ => {
                            // dropped without inserting
                        }
                    }
                }
            },
        }
        self.track();
        Ok(Step::Done)
    }

    fn indexed_op(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let n = self.model().len();
        let i = match src.below(4) {
            0 => 0,
            1 => n.saturating_sub(1),
            _ => src.usize(n + 1),
        };
        let how = src.below(9);
        let v = self.val();
        note!(cx, "indexed entry {i} of {n}, operation {how} v{v}");
        let (map, m) = &mut self.maps[c];
        let entry = match src.below(3) {
            0 if i == 0 => map.first_entry(),
            1 if n > 0 && i == n - 1 => map.last_entry(),
            _ => map.get_index_entry(i),
        };
        let Some(mut x) = entry else {
            ensure!(i >= n, "no entry at {i} of {n}");
            return Ok(Step::Done);
        };
        ensure!(i < n, "an entry at {i} of {n}");
        same!((x.index(), x.key().serial(), x.get().v), (i, m[i].serial, m[i].v), "indexed entry");
        match how {
            0 => {
                let old = x.insert(Val::new(v));
                same!(old.v, m[i].v, "insert through an indexed entry");
                m[i].v = v;
            }
            1 => {
                x.get_mut().v = v;
                m[i].v = v;
            }
            2 => {
                x.into_mut().v = v;
                m[i].v = v;
            }
            3 => {
                let r = x.swap_remove_entry(&mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                let p = m.swap_remove(i);
                same!((r.0.serial(), r.1.v), (p.serial, p.v), "swap_remove_entry");
            }
            4 => {
                let r = x.shift_remove_entry(&mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                let p = m.remove(i);
                same!((r.0.serial(), r.1.v), (p.serial, p.v), "shift_remove_entry");
            }
            5 => {
                let r = x.swap_remove(&mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                same!(r.v, m.swap_remove(i).v, "swap_remove");
            }
            6 => {
                let r = x.shift_remove(&mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                same!(r.v, m.remove(i).v, "shift_remove");
            }
            7 => {
                let to = src.usize(n);
                note!(cx, "  move_index({to})");
                x.move_index(to, &mut self.e, &mut self.g).map_err(|f| format!("{f:?}"))?;
                let p = m.remove(i);
                m.insert(to, p);
            }
            _ => {}
        }
        self.track();
        Ok(Step::Done)
    }
}

pub fn cmp_mod(a: u32, b: u32, m: u32) -> std::cmp::Ordering {
    tick_panic("cmp");
    (a % m).cmp(&(b % m))
}

fn m_remove(m: &mut Vec<P>, i: usize, shift: bool) -> P {
    if shift { m.remove(i) } else { m.swap_remove(i) }
}

pub fn arm_at(fail_at: u64) {
    if fail_at != 0 {
        arm(fail_at, Kind::Error, None);
    }
}

/// Stores a pair in the model as an insertion would.
pub fn put(m: &mut Vec<P>, p: P) {
    match m.iter_mut().find(|x| x.id == p.id) {
        Some(x) => x.v = p.v,
        None => m.push(p),
    }
}

/// The model of a clone: same pairs, new instances.
fn renumber(map: &Map, of: &[P]) -> Result<Vec<P>, String> {
    let m: Vec<P> = map
        .iter()
        .map(|(k, v)| P {
            id: k.core.id,
            serial: k.serial(),
            v: v.v,
        })
        .collect();
    let a: Vec<(u32, u32)> = m.iter().map(|p| (p.id, p.v)).collect();
    let b: Vec<(u32, u32)> = of.iter().map(|p| (p.id, p.v)).collect();
    same!(a, b, "pairs of the clone");
    for (x, y) in m.iter().zip(of) {
        ensure!(x.serial != y.serial, "the clone shares a key instance");
    }
    Ok(m)
}

fn renumber_from(map: &Map, of: &[P]) -> Result<Vec<P>, String> {
    let m: Vec<P> = map
        .iter()
        .map(|(k, v)| P {
            id: k.core.id,
            serial: k.serial(),
            v: v.v,
        })
        .collect();
    let a: Vec<(u32, u32)> = m.iter().map(|p| (p.id, p.v)).collect();
    let b: Vec<(u32, u32)> = of.iter().map(|p| (p.id, p.v)).collect();
    same!(a, b, "pairs after clone_from");
    Ok(m)
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Mix {
    Core,
    Bulk,
    Entry,
}

fn history(src: &mut Src, cx: &mut Cx, mix: Mix) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mean = src.pick(&[14u64, 40, 90]);
    let mut n = 0u64;
    while src.more(mean) && n < 300 {
        src.begin();
        if s.maps.len() > 1 && src.chance(1, 6) {
            s.cur = src.usize(s.maps.len());
        }
        let r = match mix {
            Mix::Core => s.core_op(src, cx),
            Mix::Bulk => {
                if src.below(5) < 2 {
                    s.core_op(src, cx)
                } else {
                    s.bulk_op(src, cx)
                }
            }
            Mix::Entry => match src.below(6) {
                0 => s.core_op(src, cx),
                1 => s.bulk_op(src, cx),
                _ => s.entry_op(src, cx),
            },
        };
        src.end();
        r?;
        n += 1;
        // large maps are compared in full only now and then
        let big = s.maps.iter().map(|m| m.1.len()).sum::<usize>();
        if big < 60 || n % 4 == 0 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    if s.promoted {
        cx.label("grew past the small-map limit");
    }
    if s.demoted {
        cx.label("shrank back below the limit");
    }
    if s.max_len > 8 && (s.removed > 0 || mix != Mix::Core) && n >= 5 {
        cx.nontrivial();
    }
    let max = s.max_len;
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    if max > 64 {
        cx.label("more than 64 pairs");
    }
    noticed()
}

pub fn core_history(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, Mix::Core)
}
pub fn bulk_history(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, Mix::Bulk)
}
pub fn entry_history(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, Mix::Entry)
}

/// C03: the same histories, each operation with an error injected at some callback.
pub fn fault_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut raised_big = 0;
    let mut n = 0;
    while src.more(30) && n < 120 {
        src.begin();
        let inject = src.chance(1, 2);
        let reach = if src.bool() { 2 } else { 12 };
        let at = if inject { 1 + src.below(reach) } else { 0 };
        s.fail_at = at;
        if at != 0 {
            note!(cx, "-- callback {at} of the next operation raises");
        }
        let before: Vec<P> = s.model().clone();
        let r = match src.below(6) {
            0 => s.single_bulk(src, cx),
            1 => s.entry_op(src, cx),
            _ => s.core_op(src, cx),
        };
        src.end();
        let step = r?;
        s.fail_at = 0;
        n += 1;
        if step == Step::Raised {
            raised += 1;
            note!(cx, "   raised");
            if before.len() > 8 {
                raised_big += 1;
            }
        }
        if s.model().len() < 60 || n % 4 == 0 || step == Step::Raised && s.model().len() < 400 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    for _ in 0..raised {
        cx.label("errors raised and reported");
    }
    for _ in 0..raised_big {
        cx.label("errors raised with more than 8 pairs");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// C04: panics out of callbacks.
pub fn panic_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::small(src, 70);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(24) && n < 100 {
        src.begin();
        if s.maps.len() > 1 && src.chance(1, 6) {
            s.cur = src.usize(s.maps.len());
        }
        let only = src.pick(&[None, Some("hash"), Some("eql"), Some("clone"), Some("cmp"), Some("pred")]);
        let inject = src.chance(2, 3);
        let reach = src.pick(&[3u64, 20]);
        let at = 1 + src.below(reach);
        let kind = src.below(3);
        if inject {
            note!(cx, "-- callback {at} ({only:?}) of the next operation panics");
            arm(at, Kind::Panic, only);
        }
        let r = pbt::catch(|| match kind {
            0 => s.core_op(src, cx),
            1 => s.entry_op(src, cx),
            _ => s.bulk_op(src, cx),
        });
        src.end();
        disarm();
        n += 1;
        match r {
            Ok(r) => {
                r?;
            }
            Err(m) if m.contains("injected panic") => {
                raised += 1;
                note!(cx, "   panicked");
                noticed()?;
                let held: i64 = s.maps.iter().map(|x| 2 * x.0.iter().count() as i64).sum();
                same!(live(), held, "live keys and values after a panic");
                if kind == 2 {
                    // order and lookups may be anything after a panicking bulk operation;
                    // the pairs are still there and the map can be emptied and refilled
                    for i in 0..s.maps.len() {
                        let (map, _) = std::mem::replace(&mut s.maps[i], (Map::default(), vec![]));
                        let fresh = src.bool();
                        let (mut map, items) = if fresh {
                            (Map::default(), map.into_iter().collect::<Vec<_>>())
                        } else {
                            let mut map = map;
                            map.clear();
                            (map, vec![])
                        };
                        let m: Vec<P> = items
                            .iter()
                            .map(|(k, v)| P { id: k.core.id, serial: k.serial(), v: v.v })
                            .collect();
                        map.extend(items, &mut s.e, &mut s.g).map_err(|f| format!("{f:?}"))?;
                        s.maps[i] = (map, m);
                    }
                    cx.label("panics in bulk operations");
                }
            }
            Err(m) => return Err(m),
        }
        s.verify()?;
        s.verify_live()?;
    }
    for _ in 0..raised {
        cx.label("panics survived");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

impl Sys {
    /// The bulk operations that concern a single key.
    fn single_bulk(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let c = self.cur;
        let k = self.key(src);
        let v = self.val();
        let at = self.pos(k.id);
        let n = self.model().len();
        let key = Key::new(k);
        let serial = key.serial();
        if src.bool() {
            let i = src.usize(if at.is_some() { n } else { n + 1 });
            note!(cx, "shift_insert({i}, {k:?}, v{v})");
            let old = t!(self, self.maps[c].0.shift_insert(i, key, Val::new(v), &mut self.e, &mut self.g));
            let m = &mut self.maps[c].1;
            match at {
                Some(p) => {
                    let mut x = m.remove(p);
                    same!(old.map(|o| o.v), Some(x.v), "shift_insert");
                    x.v = v;
                    m.insert(i, x);
                }
                None => m.insert(i, P { id: k.id, serial, v }),
            }
        } else {
            let (a, b) = (self.key(src), k);
            if a.id == b.id {
                return Ok(Step::Done);
            }
            note!(cx, "get_disjoint_mut([{a:?}, {b:?}])");
            let (pa, pb) = (self.pos(a.id), self.pos(b.id));
            let [x, y] = t!(self, self.maps[c].0.get_disjoint_mut([&a, &b], &mut self.e, &mut self.g));
            same!((x.is_some(), y.is_some()), (pa.is_some(), pb.is_some()), "get_disjoint_mut");
        }
        Ok(Step::Done)
    }
}

