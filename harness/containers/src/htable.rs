//! Histories of the hash-keyed table, a multiset, against a list.

use crate::common::*;
use crate::hmap::{Conv, Step, uwalk};
use crate::rmap::arm_at;
use hashbrown::HashTable;
use hashbrown::hash_table::Entry;
use pbt::{Cx, R, Src, ensure, note, same};

type El = (Key, Val);
pub type Table = HashTable<El, Vm, Gl, Fault>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub struct P {
    pub serial: u32,
    pub id: u32,
    pub v: u32,
}

pub fn hash_of(x: &El) -> u64 {
    tick_panic("hash");
    x.0.core.h
}

fn look(x: &El) -> P {
    P { serial: x.0.serial(), id: x.0.core.id, v: x.1.v }
}

pub struct Sys {
    pub u: Universe,
    pub table: Table,
    pub m: Vec<P>,
    pub spare: Option<(Table, Vec<P>)>,
    pub e: Vm,
    pub g: Gl,
    pub fail_at: u64,
    next: u32,
    pub max_len: usize,
    pub dup: bool,
}

macro_rules! t {
    ($self:ident, $x:expr) => {{
        arm_at($self.fail_at);
        let r = $x;
        let fired = $self.fail_at != 0 && disarm();
        match r {
            Ok(v) => {
                if fired {
                    return Err("an error raised by a callback was swallowed".to_string());
                }
                v
            }
            Err(Fault(n)) => {
                if !fired || n != $self.fail_at {
                    return Err(format!("the operation failed with {n} but callback {} raised", $self.fail_at));
                }
                return Ok(Step::Raised);
            }
        }
    }};
}

/// A search predicate: equal id, asked under the hash `h`.
fn eq_id(id: u32, h: u64) -> impl FnMut(&El, &mut Vm, &mut Gl) -> Result<bool, Fault> {
    move |x, e, g| {
        if e.0 != VM_MAGIC || g.0 != GL_MAGIC {
            bad("a callback received a different context".to_string());
        }
        tick("eql")?;
        Ok(x.0.core.id == id && x.0.core.h == h)
    }
}

impl Sys {
    pub fn new(src: &mut Src, cx: &mut Cx, u: Universe) -> Self {
        let table = match src.below(3) {
            0 => Table::new(),
            1 => Table::default(),
            _ => Table::with_capacity(src.usize(60)),
        };
        note!(cx, "universe of {} keys, hash mode {}, capacity {}", u.size, u.mode, table.capacity());
        let (e, g) = ctx();
        Sys { u, table, m: vec![], spare: None, e, g, fail_at: 0, next: 0, max_len: 0, dup: false }
    }

    fn val(&mut self) -> u32 {
        self.next += 1;
        self.next
    }

    fn key(&self, src: &mut Src) -> Core {
        if !self.m.is_empty() && src.bool() {
            let i = src.usize(self.m.len());
            self.u.core(self.m[i].id)
        } else {
            self.u.any(src)
        }
    }

    fn drop_from_model(&mut self, p: P) -> R {
        match self.m.iter().position(|x| *x == p) {
            Some(i) => {
                self.m.swap_remove(i);
                Ok(())
            }
            None => Err(format!("{p:?} was yielded but is not in the table")),
        }
    }

    pub fn read(&self) -> Vec<P> {
        let mut v: Vec<P> = self.table.iter().map(look).collect();
        v.sort();
        v
    }

    pub fn verify(&mut self) -> R {
        breathe();
        noticed()?;
        same!(self.table.len(), self.m.len(), "len");
        same!(self.table.is_empty(), self.m.is_empty(), "is_empty");
        ensure!(self.table.capacity() >= self.table.len(), "capacity below the length");
        let got = self.read();
        self.m.sort();
        same!(got, self.m, "contents");
        let (e, g) = (&mut self.e, &mut self.g);
        for p in &self.m {
            let h = self.u.core(p.id).h;
            match self.table.find(h, |x, _, _| Ok(x.0.serial() == p.serial), e, g) {
                Ok(Some(x)) if look(x) == *p => {}
                r => return Err(format!("{p:?} is in the table but searching its hash finds {r:?}")),
            }
        }
        let stride = (self.u.size / 40).max(1);
        let mut id = 0;
        while id < self.u.size {
            if !self.m.iter().any(|p| p.id == id) {
                let c = self.u.core(id);
                match self.table.find(c.h, eq_id(id, c.h), e, g) {
                    Ok(None) => {}
                    r => return Err(format!("k{id} is absent but searching finds {r:?}")),
                }
            }
            id += stride;
        }
        noticed()
    }

    pub fn verify_live(&self) -> R {
        let spare = self.spare.as_ref().map_or(0, |s| s.1.len());
        same!(live(), 2 * (self.m.len() + spare) as i64, "live keys and values");
        noticed()
    }

    fn track(&mut self) {
        self.max_len = self.max_len.max(self.m.len());
    }

    pub fn single(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let k = self.key(src);
        let v = self.val();
        let here: Vec<P> = self.m.iter().filter(|p| p.id == k.id).copied().collect();
        let (e, g) = (&mut self.e, &mut self.g);
        match src.weighted(&[14, 5, 5, 4, 12, 12, 5, 5, 4]) {
            0 => {
                note!(cx, "insert_unique({k:?}, v{v})");
                let key = Key::new(k);
                let serial = key.serial();
                let p = P { serial, id: k.id, v };
                {
                    let o = self.table.insert_unique(k.h, (key, Val::new(v)), hash_of);
                    same!(look(o.get()), p, "inserted element");
                }
                if !here.is_empty() {
                    self.dup = true;
                }
                self.m.push(p);
            }
            1 => {
                note!(cx, "find({k:?})");
                let r = t!(self, self.table.find(k.h, eq_id(k.id, k.h), e, g));
                match r {
                    Some(x) => ensure!(here.contains(&look(x)), "find gives {x:?}"),
                    None => ensure!(here.is_empty(), "find misses {k:?}"),
                }
            }
            2 => {
                note!(cx, "find_mut({k:?}) = v{v}");
                let r = t!(self, self.table.find_mut(k.h, eq_id(k.id, k.h), e, g));
                match r {
                    Some(x) => {
                        let p = look(x);
                        ensure!(here.contains(&p), "find_mut gives {x:?}");
                        x.1.v = v;
                        self.m.iter_mut().find(|q| **q == p).unwrap().v = v;
                    }
                    None => ensure!(here.is_empty(), "find_mut misses {k:?}"),
                }
            }
            3 => {
                // a hash no element of that id is stored under
                let h = src.pick(&[k.h ^ 1, k.h ^ 1 << 57, !k.h, k.h ^ 1 << 30, k.h.wrapping_add(16)]);
                note!(cx, "find({k:?}) under another hash");
                let r = t!(self, self.table.find(h, eq_id(k.id, h), e, g));
                ensure!(r.is_none(), "found {r:?}");
            }
            4 => {
                let how = src.below(3);
                note!(cx, "find_entry({k:?}), how {how}");
                let r = t!(self, self.table.find_entry(k.h, eq_id(k.id, k.h), e, g));
                match r {
                    Ok(mut o) => {
                        let p = look(o.get());
                        ensure!(here.contains(&p), "find_entry gives {p:?}");
                        match how {
                            0 => {
                                let (x, _) = o.remove();
                                same!(look(&x), p, "removed element");
                                drop(x);
                                self.drop_from_model(p)?;
                            }
                            1 => {
                                let (x, vac) = o.remove();
                                same!(look(&x), p, "removed element");
                                // put another element with this hash at the freed place
                                drop(x);
                                let key = Key::new(k);
                                let q = P { serial: key.serial(), id: k.id, v };
                                {
                                    let o = vac.insert((key, Val::new(v)));
                                    same!(look(o.get()), q, "reinserted element");
                                }
                                self.drop_from_model(p)?;
                                self.m.push(q);
                            }
                            _ => {
                                o.get_mut().1.v = v;
                                if src.bool() {
                                    let table = o.into_table();
                                    same!(table.len(), self.m.len(), "length of into_table");
                                } else {
                                    same!(look(o.into_mut()), P { v, ..p }, "into_mut");
                                }
                                self.m.iter_mut().find(|q| **q == p).unwrap().v = v;
                            }
                        }
                    }
                    Err(a) => {
                        ensure!(here.is_empty(), "find_entry misses {k:?}");
                        same!(a.into_table().len(), self.m.len(), "length of into_table");
                    }
                }
            }
            5 => {
                let sym = src.bool();
                let how = src.below(7);
                note!(cx, "entry({k:?}) sym={sym} how {how} v{v}");
                let entry = if sym {
                    self.table.entry_sym(
                        k.h,
                        |x| {
                            tick_panic("eql");
                            x.0.core.id == k.id
                        },
                        hash_of,
                    )
                } else {
                    t!(self, self.table.entry(k.h, eq_id(k.id, k.h), hash_of, e, g))
                };
                let found = match &entry {
                    Entry::Occupied(o) => Some(look(o.get())),
                    Entry::Vacant(_) => None,
                };
                match found {
                    Some(p) => ensure!(here.contains(&p), "entry gives {p:?}"),
                    None => ensure!(here.is_empty(), "entry misses {k:?}"),
                }
                let key = Key::new(k);
                let q = P { serial: key.serial(), id: k.id, v };
                match how {
                    0 => {
                        same!(look(entry.insert((key, Val::new(v))).get()), q, "entry insert");
                        if let Some(p) = found {
                            self.drop_from_model(p)?;
                        }
                        self.m.push(q);
                    }
                    1 => {
                        same!(look(entry.or_insert((key, Val::new(v))).get()), found.unwrap_or(q), "or_insert");
                        if found.is_none() {
                            self.m.push(q);
                        }
                    }
                    2 => {
                        let o = entry.or_insert_with(|| {
                            tick_panic("pred");
                            (key, Val::new(v))
                        });
                        same!(look(o.get()), found.unwrap_or(q), "or_insert_with");
                        if found.is_none() {
                            self.m.push(q);
                        }
                    }
                    3 => {
                        let entry = entry.and_modify(|x| {
                            tick_panic("pred");
                            x.1.v = v
                        });
                        match entry {
                            Entry::Occupied(o) => {
                                let p = found.ok_or("and_modify made an entry occupied")?;
                                same!(look(o.get()), P { v, ..p }, "and_modify");
                                self.m.iter_mut().find(|q| **q == p).unwrap().v = v;
                            }
                            Entry::Vacant(_) => ensure!(found.is_none(), "and_modify lost an entry"),
                        }
                    }
                    4 => match entry {
                        Entry::Occupied(o) => {
                            let (x, _) = o.remove();
                            same!(Some(look(&x)), found, "entry remove");
                            self.drop_from_model(found.unwrap())?;
                        }
                        Entry::Vacant(a) => same!(a.into_table().len(), self.m.len(), "length of into_table"),
                    },
                    5 => match entry {
                        Entry::Occupied(o) => {
                            let (x, vac) = o.remove();
                            same!(Some(look(&x)), found, "entry remove");
                            let o = vac.insert(x);
                            same!(Some(look(o.get())), found, "entry reinsert");
                        }
                        Entry::Vacant(a) => {
                            let o = a.insert((key, Val::new(v)));
                            same!(look(o.get()), q, "vacant insert");
                            self.m.push(q);
                        }
                    },
                    _ => drop(entry),
                }
            }
            6 | 7 => {
                let m = src.bool();
                note!(cx, "iter_hash({k:?}) mutable={m}");
                let under: Vec<u32> = self.m.iter().filter(|p| self.u.core(p.id).h == k.h).map(|p| p.serial).collect();
                let mut got: Vec<u32> = vec![];
                if m {
                    for x in self.table.iter_hash_mut(k.h) {
                        got.push(x.0.serial());
                        x.1.v = x.1.v.wrapping_add(5);
                    }
                } else if src.bool() {
                    let it = self.table.iter_hash(k.h);
                    let again = it.clone();
                    got.extend(it.map(|x| x.0.serial()));
                    let mut two: Vec<u32> = again.fold(vec![], |mut v, x| {
                        v.push(x.0.serial());
                        v
                    });
                    let mut one = got.clone();
                    one.sort();
                    two.sort();
                    same!(two, one, "iter_hash and its copy");
                } else {
                    let mut it = self.table.iter_hash(k.h);
                    while let Some(x) = it.next() {
                        got.push(x.0.serial());
                        ensure!(got.len() <= self.m.len(), "iter_hash does not end");
                    }
                    ensure!(it.next().is_none(), "iter_hash starts again");
                }
                for s in &under {
                    same!(got.iter().filter(|x| *x == s).count(), 1, "times element #{s} is yielded by iter_hash");
                }
                let n = got.len();
                got.sort();
                got.dedup();
                same!(got.len(), n, "distinct elements yielded by iter_hash");
                for s in &got {
                    ensure!(self.m.iter().any(|p| p.serial == *s), "iter_hash yields #{s}, which is not in the table");
                }
                if m {
                    for p in &mut self.m {
                        if got.contains(&p.serial) {
                            p.v = p.v.wrapping_add(5);
                        }
                    }
                }
            }
            _ => {
                // remove one particular instance among equal ones
                if let Some(p) = here.last().copied() {
                    note!(cx, "remove instance #{} of {k:?}", p.serial);
                    let r = t!(
                        self,
                        self.table.find_entry(
                            k.h,
                            |x, _, _| {
                                tick("eql")?;
                                Ok(x.0.serial() == p.serial)
                            },
                            e,
                            g
                        )
                    );
                    match r {
                        Ok(o) => same!(look(&o.remove().0), p, "removed instance"),
                        Err(_) => return Err(format!("instance {p:?} is not found")),
                    }
                    self.drop_from_model(p)?;
                }
            }
        }
        self.track();
        Ok(Step::Done)
    }

    pub fn bulk(&mut self, src: &mut Src, cx: &mut Cx) -> Result<Step, String> {
        let n = self.m.len();
        let u = self.u;
        match src.weighted(&[1, 3, 4, 4, 3, 3, 3, 4, 4, 10, 8, 8, 1]) {
            0 => {
                note!(cx, "clear");
                let cap = self.table.capacity();
                self.table.clear();
                self.m.clear();
                ensure!(self.table.capacity() >= cap, "clear gave up capacity");
            }
            1 => {
                let take = src.len(n + 2);
                note!(cx, "drain, taking {take}");
                let mut got = vec![];
                {
                    let mut d = self.table.drain();
                    for i in 0..take {
                        same!(d.len(), n.saturating_sub(i), "length of the drain");
                        match d.next() {
                            Some(x) => got.push(look(&x)),
                            None => ensure!(i >= n, "the drain ended after {i} of {n}"),
                        }
                    }
                    if src.chance(1, 3) {
                        got = d.fold(got, |mut g, x| {
                            g.push(look(&x));
                            g
                        });
                        same!(got.len(), n, "drained by fold");
                    }
                }
                for p in got {
                    self.drop_from_model(p)?;
                }
                self.m.clear();
            }
            2 => {
                let md = 1 + src.below(4) as u32;
                let r = src.below(md as u64) as u32;
                note!(cx, "retain(serial % {md} == {r})");
                let mut shown = vec![];
                self.table.retain(|x| {
                    tick_panic("pred");
                    shown.push(x.0.serial());
                    x.1.v = x.1.v.wrapping_add(1);
                    x.0.serial() % md == r
                });
                shown.sort();
                let mut want: Vec<u32> = self.m.iter().map(|p| p.serial).collect();
                want.sort();
                same!(shown, want, "elements shown by retain");
                self.m.retain_mut(|p| {
                    p.v = p.v.wrapping_add(1);
                    p.serial % md == r
                });
            }
            3 => {
                let md = 1 + src.below(4) as u32;
                let r = src.below(md as u64) as u32;
                let take = src.len(n + 2);
                note!(cx, "extract_if(serial % {md} == {r}), taking {take}");
                let mut shown = vec![];
                let mut got = vec![];
                {
                    let mut it = self.table.extract_if(|x| {
                        tick_panic("pred");
                        shown.push(x.0.serial());
                        x.0.serial() % md == r
                    });
                    for _ in 0..take {
                        let (lo, hi) = it.size_hint();
                        ensure!(lo == 0 && hi.is_some_and(|h| h <= n), "size_hint ({lo}, {hi:?}) of extract_if on {n}");
                        match it.next() {
                            Some(x) => got.push(look(&x)),
                            None => break,
                        }
                    }
                }
                same!(shown.iter().filter(|s| *s % md == r).count(), got.len(), "elements extracted");
                if got.len() < take {
                    same!(shown.len(), n, "elements shown by extract_if");
                }
                for p in got {
                    ensure!(p.serial % md == r, "extract_if yields {p:?}");
                    self.drop_from_model(p)?;
                }
            }
            4 => {
                let k = src.len(80);
                note!(cx, "reserve({k})");
                self.table.reserve(k, hash_of);
                ensure!(self.table.capacity() >= n + k, "reserve({k}) left capacity {}", self.table.capacity());
            }
            5 => {
                let k = src.len(80);
                let fit = src.bool();
                note!(cx, "shrink fit={fit} to {k}");
                if fit {
                    self.table.shrink_to_fit(hash_of);
                } else {
                    self.table.shrink_to(k, hash_of);
                }
            }
            6 => {
                if src.bool() {
                    note!(cx, "clone");
                    let copy = self.table.clone();
                    let m: Vec<P> = copy.iter().map(look).collect();
                    let strip = |m: &[P]| {
                        let mut v: Vec<_> = m.iter().map(|p| (p.id, p.v)).collect();
                        v.sort();
                        v
                    };
                    same!(strip(&m), strip(&self.m), "the copy");
                    self.spare = Some((copy, m));
                } else if let Some((table, m)) = self.spare.take() {
                    note!(cx, "swap with the copy");
                    let old = std::mem::replace(&mut self.table, table);
                    let old_m = std::mem::replace(&mut self.m, m);
                    self.spare = Some((old, old_m));
                }
            }
            7 => {
                let how = src.below(5);
                note!(cx, "iterator {how}");
                let want: Vec<P> = self.m.clone();
                match how {
                    0 => {
                        let it = self.table.iter();
                        let again = it.clone();
                        uwalk(src, "iter", Conv(it, look), want.clone())?;
                        uwalk(src, "cloned iter", Conv(again, look), want)?;
                    }
                    1 => uwalk(src, "iter_mut", Conv(self.table.iter_mut(), |x: &mut El| look(x)), want)?,
                    2 => {
                        let t = std::mem::take(&mut self.table);
                        self.m.clear();
                        uwalk(src, "into_iter", Conv(t.into_iter(), |x: El| look(&x)), want)?;
                    }
                    3 => {
                        for x in &mut self.table {
                            x.1.v = x.1.v.wrapping_add(9);
                        }
                        for p in &mut self.m {
                            p.v = p.v.wrapping_add(9);
                        }
                    }
                    _ => {
                        let t = std::mem::take(&mut self.table);
                        let take = src.len(n);
                        let mut it = t.into_iter();
                        for _ in 0..take {
                            let x = it.next().ok_or("into_iter ended early")?;
                            ensure!(want.contains(&look(&x)), "into_iter yields {x:?}");
                        }
                        self.m.clear();
                    }
                }
            }
            8 => {
                // many equal elements
                let core = u.any(src);
                let k = src.len(40);
                note!(cx, "insert {k} equal elements {core:?}");
                for _ in 0..k {
                    let v = self.val();
                    let key = Key::new(core);
                    let serial = key.serial();
                    self.table.insert_unique(core.h, (key, Val::new(v)), hash_of);
                    self.m.push(P { serial, id: core.id, v });
                }
                self.dup |= k > 1;
            }
            9 => {
                let k = src.len((u.size as usize).min(500));
                let from = src.below(u.size as u64) as u32;
                note!(cx, "insert a run of {k} elements from k{from}");
                for j in 0..k as u32 {
                    let core = u.core((from + j) % u.size);
                    let v = self.val();
                    let key = Key::new(core);
                    let serial = key.serial();
                    self.table.insert_unique(core.h, (key, Val::new(v)), hash_of);
                    self.m.push(P { serial, id: core.id, v });
                }
            }
            10 => {
                let k = src.len(n);
                note!(cx, "remove {k} elements");
                let step = 1 + src.usize(5);
                for j in 0..k {
                    let i = (j * step) % self.m.len();
                    let p = self.m.swap_remove(i);
                    let h = u.core(p.id).h;
                    match self.table.find_entry(h, |x, _, _| Ok(x.0.serial() == p.serial), &mut self.e, &mut self.g) {
                        Ok(Ok(o)) => same!(look(&o.remove().0), p, "removed element"),
                        _ => return Err(format!("{p:?} is not found")),
                    }
                }
            }
            11 => {
                let k = src.len(200);
                note!(cx, "churn {k} times");
                let mut id = src.below(u.size as u64) as u32;
                for j in 0..k {
                    if !self.m.is_empty() {
                        let p = self.m.swap_remove(j % self.m.len());
                        let h = u.core(p.id).h;
                        match self.table.find_entry(h, |x, _, _| Ok(x.0.serial() == p.serial), &mut self.e, &mut self.g) {
                            Ok(Ok(o)) => same!(look(&o.remove().0), p, "removed element"),
                            _ => return Err(format!("{p:?} is not found")),
                        }
                    }
                    let core = u.core(id);
                    id = (id + 1) % u.size;
                    let v = self.val();
                    let key = Key::new(core);
                    let serial = key.serial();
                    self.table.insert_unique(core.h, (key, Val::new(v)), hash_of);
                    self.m.push(P { serial, id: core.id, v });
                }
            }
            _ => {
                note!(cx, "format");
                let text = format!("{:?}", self.table);
                for p in &self.m {
                    ensure!(text.contains(&format!("(k{}#{}, v{})", p.id, p.serial, p.v)), "{p:?} is not in {text}");
                }
            }
        }
        self.track();
        Ok(Step::Done)
    }
}

/// C13.
pub fn history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut n = 0;
    while src.more(24) && n < 120 {
        src.begin();
        let r = if src.chance(3, 5) { s.single(src, cx) } else { s.bulk(src, cx) };
        src.end();
        ensure!(r? == Step::Done, "an operation failed without a raising callback");
        n += 1;
        if s.m.len() < 60 || n % 4 == 0 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    if n >= 5 && s.max_len > 14 && s.dup {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// C15.
pub fn fault_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::draw(src);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(30) && n < 120 {
        src.begin();
        let inject = src.chance(1, 2);
        let reach = src.pick(&[2u64, 2, 12]);
        s.fail_at = if inject { 1 + src.below(reach) } else { 0 };
        if inject {
            note!(cx, "-- comparison {} of the next operation raises", s.fail_at);
        }
        let r = if src.chance(4, 5) { s.single(src, cx) } else { s.bulk(src, cx) };
        src.end();
        disarm();
        s.fail_at = 0;
        n += 1;
        let step = r?;
        if step == Step::Raised {
            raised += 1;
            note!(cx, "   raised");
        }
        if s.m.len() < 60 || n % 4 == 0 || step == Step::Raised && s.m.len() < 400 {
            s.verify()?;
        }
    }
    s.verify()?;
    s.verify_live()?;
    for _ in 0..raised {
        cx.label("errors raised and reported");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// C14.
pub fn panic_history(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let u = Universe::small(src, 150);
    let mut s = Sys::new(src, cx, u);
    let mut raised = 0;
    let mut n = 0;
    while src.more(24) && n < 100 {
        src.begin();
        let only = src.pick(&[None, Some("hash"), Some("hash"), Some("eql"), Some("clone"), Some("pred")]);
        let inject = src.chance(2, 3);
        let reach = src.pick(&[3u64, 20, 100]);
        let at = 1 + src.below(reach);
        let single = src.bool();
        if inject {
            note!(cx, "-- callback {at} ({only:?}) of the next operation panics");
            arm(at, Kind::Panic, only);
        }
        let mut before = s.m.clone();
        before.sort();
        let r = pbt::catch(|| if single { s.single(src, cx) } else { s.bulk(src, cx) });
        src.end();
        disarm();
        n += 1;
        match r {
            Ok(r) => {
                r?;
            }
            Err(m) if m.contains("injected panic") => {
                raised += 1;
                note!(cx, "   panicked");
                noticed()?;
                let spare = s.spare.as_ref().map_or(0, |x| x.0.iter().count());
                same!(live(), 2 * (s.table.iter().count() + spare) as i64, "live keys and values after a panic");
                let now = s.read();
                if single && only == Some("eql") {
                    same!(now, before, "the table after a panicking comparison");
                }
                s.m = now;
            }
            Err(m) => return Err(m),
        }
        s.verify()?;
        s.verify_live()?;
    }
    for _ in 0..raised {
        cx.label("panics survived");
    }
    if raised > 0 {
        cx.nontrivial();
    }
    drop(s);
    same!(live(), 0, "live instances after dropping everything");
    noticed()
}

/// A table that stays about half full while elements come and go, many of them with places near its
/// end, so that it is tidied up in its own memory again and again.
pub fn crowded(src: &mut Src, cx: &mut Cx) -> R {
    let room = src.pick(&[14usize, 28, 56, 112]);
    let mut table: HashTable<(u64, u64), (), (), ()> = HashTable::with_capacity(room);
    let places = (table.capacity() * 8 / 7).next_power_of_two() as u64;
    let spread = src.pick(&[1u64, 2, 5, 16, places]);
    let most = room / 2 - src.usize(room / 4 + 1);
    let mut there: Vec<(u64, u64)> = vec![];
    let (mut next, rounds) = (0u64, src.pick(&[40usize, 120, 300]));
    let start = table.capacity();
    note!(cx, "room for {room}, {spread} places, at most {most} elements, {rounds} rounds");
    let e = &mut ();
    for i in 0..rounds {
        while there.len() >= most || !there.is_empty() && src.chance(1, 5) {
            let (h, x) = there.swap_remove(src.usize(there.len()));
            let Ok(Ok(o)) = table.find_entry(h, |y, _, _| Ok(y.1 == x), e, &mut ()) else {
                return Err(format!("round {i}: element {x} is lost"));
            };
            same!(o.remove().0, (h, x), "the element removed");
        }
        let h = (places - 1 - src.below(spread)) | src.below(128) << 57;
        next += 1;
        table.insert_unique(h, (h, next), |y| y.0);
        there.push((h, next));
        same!(table.len(), there.len(), "length in round {i}");
        if i % 8 == 7 || i + 1 == rounds {
            for (h, x) in &there {
                same!(table.find(*h, |y, _, _| Ok(y.1 == *x), e, &mut ()), Ok(Some(&(*h, *x))), "round {i}: element {x}");
            }
            let mut seen: Vec<u64> = table.iter().map(|y| y.1).collect();
            seen.sort();
            let mut want: Vec<u64> = there.iter().map(|y| y.1).collect();
            want.sort();
            same!(seen, want, "elements in round {i}");
        }
    }
    if rounds > room && table.capacity() == start {
        cx.nontrivial();
    }
    Ok(())
}
