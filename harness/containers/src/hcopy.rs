//! C14 for elements without a destructor, where the clean-up after a panic takes other paths.

use crate::common::*;
use hashbrown::{HashMap, HashTable};
use pbt::{Cx, R, Src, ensure, note, same};
use ruby_traits::RubyEql;
use std::collections::BTreeMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Debug)]
struct Ck {
    id: u32,
    h: u64,
}
impl Hash for Ck {
    fn hash<H: Hasher>(&self, s: &mut H) {
        tick_panic("hash");
        s.write_u64(self.h);
    }
}
impl RubyEql<Vm, Gl, Fault> for Ck {
    fn eql(&self, o: &Self, _: &mut Vm, _: &mut Gl) -> Result<bool, Fault> {
        tick_panic("eql");
        Ok(self.id == o.id)
    }
}

/// Passes the key's own hash through.
#[derive(Default, Clone)]
struct Through(u64);
impl Hasher for Through {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = x;
    }
}
type Map = HashMap<Ck, u32, Vm, Gl, Fault, BuildHasherDefault<Through>>;
type Table = HashTable<Ck, Vm, Gl, Fault>;

fn key(id: u32, mode: u64) -> Ck {
    let x = id as u64;
    let h = match mode {
        0 => x.wrapping_mul(0x9E37_79B9_7F4A_7C15),
        1 => x,
        2 => x << 57,
        3 => (x % 5).wrapping_mul(0x9E37_79B9_7F4A_7C15),
        _ => x.wrapping_mul(16),
    };
    Ck { id, h }
}

pub fn copies(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let (mut e, mut g) = ctx();
    let mode = src.below(5);
    let keys = src.pick(&[4u32, 14, 28, 60, 120]);
    let mut map: Map = Map::default();
    let mut tab: Table = Table::new();
    let mut mm: BTreeMap<u32, u32> = BTreeMap::new();
    let mut tm: BTreeMap<u32, ()> = BTreeMap::new();
    let mut fired_any = false;
    // Fill, so that removals leave marks and the next growth rehashes in place.
    let fill = src.len(keys as usize);
    for i in 0..fill as u32 {
        let k = key(i, mode);
        same!(map.insert(k, i, &mut e, &mut g), Ok(mm.insert(i, i)), "insertion");
        tab.insert_unique(k.h, k, |k| k.h);
        tm.insert(i, ());
    }
    note!(cx, "mode {mode}, {keys} keys, {fill} at first");
    while src.more(40) {
        src.begin();
        let k = key(src.below(keys as u64) as u32, mode);
        let at = if src.chance(1, 3) { 1 + src.below(20) } else { 0 };
        let on_map = src.bool();
        let op = src.weighted(&[6, 6, 2, 1, 1]);
        let n = src.below(2 * keys as u64) as usize;
        let p = src.u8() as u32;
        note!(cx, "operation {op} on the {}, key {}, number {n}, panic at {at}", if on_map { "map" } else { "table" }, k.id);
        if at != 0 {
            arm(at, Kind::Panic, None);
        }
        let r = pbt::catch(|| {
            if on_map {
                match op {
                    0 => {
                        let r = map.insert(k, p, &mut e, &mut g);
                        same!(r, Ok(mm.insert(k.id, p)), "insertion");
                    }
                    1 => {
                        let r = map.remove(&k, &mut e, &mut g);
                        same!(r, Ok(mm.remove(&k.id)), "removal");
                    }
                    2 => map.reserve(n),
                    3 => map.shrink_to(n),
                    _ => {
                        map.retain(|k, _| {
                            tick_panic("pred");
                            k.id % 3 != p % 3
                        });
                        mm.retain(|k, _| k % 3 != p % 3);
                    }
                }
            } else {
                let hasher = |k: &Ck| {
                    tick_panic("hash");
                    k.h
                };
                let is = |x: &Ck, _: &mut Vm, _: &mut Gl| {
                    tick_panic("eql");
                    Ok(x.id == k.id)
                };
                match op {
                    0 => {
                        if !tm.contains_key(&k.id) {
                            tab.insert_unique(k.h, k, hasher);
                            tm.insert(k.id, ());
                        }
                    }
                    1 => match tab.find_entry(k.h, is, &mut e, &mut g).map_err(|_| "failed")? {
                        Ok(o) => {
                            let (x, _) = o.remove();
                            same!(x, k, "removed element");
                            ensure!(tm.remove(&k.id).is_some(), "removed an absent element");
                        }
                        Err(_) => ensure!(!tm.contains_key(&k.id), "an element is not found"),
                    },
                    2 => tab.reserve(n, hasher),
                    3 => tab.shrink_to(n, hasher),
                    _ => {
                        tab.retain(|k| {
                            tick_panic("pred");
                            k.id % 3 != p % 3
                        });
                        tm.retain(|k, _| k % 3 != p % 3);
                    }
                }
            }
            Ok::<(), String>(())
        });
        let fired = disarm();
        fired_any |= fired;
        match r {
            Ok(r) => r?,
            Err(m) => ensure!(fired, "panic: {m}"),
        }
        // What is there now, by iteration.
        let items: BTreeMap<u32, u32> = map.iter().map(|(k, v)| (k.id, *v)).collect();
        same!(map.len(), items.len(), "length of the map and pairs iterated");
        let elems: BTreeMap<u32, ()> = tab.iter().map(|k| (k.id, ())).collect();
        same!(tab.len(), elems.len(), "length of the table and elements iterated");
        ensure!(map.capacity() >= map.len() && tab.capacity() >= tab.len(), "capacity below the length");
        if fired {
            // A panic may cost elements, but invents none.
            for (id, v) in &items {
                ensure!(mm.get(id) == Some(v) || (op == 0 && *id == k.id), "after a panic the map holds {id} => {v}");
            }
            ensure!(elems.keys().all(|id| tm.contains_key(id) || (op == 0 && *id == k.id)), "after a panic the table holds {elems:?}");
            mm = items;
            tm = elems;
        } else {
            same!(items, mm, "contents of the map");
            same!(elems, tm, "elements of the table");
        }
        src.end();
    }
    for i in 0..keys {
        let k = key(i, mode);
        same!(map.get(&k, &mut e, &mut g).map(|v| v.copied()), Ok(mm.get(&i).copied()), "lookup of {i}");
        let f = tab.find(k.h, |x, _, _| Ok(x.id == i), &mut e, &mut g).map(|x| x.is_some());
        same!(f, Ok(tm.contains_key(&i)), "table lookup of {i}");
    }
    if fired_any {
        cx.nontrivial();
    }
    Ok(())
}
