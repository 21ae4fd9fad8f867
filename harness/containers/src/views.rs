//! Iterators and slice views of the ordered containers against plain lists.

use pbt::{Cx, R, Src, ensure, note, same};
use rubymap::map::Slice as MSlice;
use rubymap::set::Slice as SSlice;
use rubymap::{RubyMap, RubySet};
use std::collections::VecDeque;
use std::fmt::Debug;
use std::ops::Bound;

use crate::common::Pass;

type Map = RubyMap<u64, u64, (), (), (), Pass>;
type Set = RubySet<u64, (), (), (), Pass>;

/// Drives an iterator from both ends and compares it with a queue.
pub fn walk<I, T>(src: &mut Src, what: &str, mut it: I, want: Vec<T>) -> R
where
    I: DoubleEndedIterator<Item = T> + ExactSizeIterator,
    T: PartialEq + Debug,
{
    let mut q: VecDeque<T> = want.into();
    let steps = src.len(q.len() + 4);
    for s in 0..steps {
        same!(it.len(), q.len(), "{what}: remaining length at step {s}");
        same!(it.size_hint(), (q.len(), Some(q.len())), "{what}: size_hint at step {s}");
        match src.below(6) {
            0 | 1 => same!(it.next(), q.pop_front(), "{what}: next at step {s}"),
            2 | 3 => same!(it.next_back(), q.pop_back(), "{what}: next_back at step {s}"),
            4 => {
                let k = src.len(q.len() + 1);
                let x = it.nth(k);
                for _ in 0..k {
                    q.pop_front();
                }
                same!(x, q.pop_front(), "{what}: nth({k}) at step {s}");
            }
            _ => {
                let k = src.len(q.len() + 1);
                let x = it.nth_back(k);
                for _ in 0..k {
                    q.pop_back();
                }
                same!(x, q.pop_back(), "{what}: nth_back({k}) at step {s}");
            }
        }
    }
    same!(it.len(), q.len(), "{what}: remaining length");
    match src.below(7) {
        0 => same!(it.count(), q.len(), "{what}: count"),
        1 => same!(it.last(), q.pop_back(), "{what}: last"),
        2 => {
            let v: Vec<T> = it.collect();
            same!(v, q.into_iter().collect::<Vec<_>>(), "{what}: collect");
        }
        3 => {
            let v: Vec<T> = it.rev().collect();
            same!(v, q.into_iter().rev().collect::<Vec<_>>(), "{what}: reversed");
        }
        4 => {
            let v = it.fold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            same!(v, q.into_iter().collect::<Vec<_>>(), "{what}: fold");
        }
        5 => {
            let v = it.rfold(vec![], |mut v, x| {
                v.push(x);
                v
            });
            same!(v, q.into_iter().rev().collect::<Vec<_>>(), "{what}: rfold");
        }
        _ => {
            while let Some(x) = q.pop_front() {
                same!(it.next(), Some(x), "{what}: the rest");
            }
            for _ in 0..3 {
                same!(it.next(), None, "{what}: exhausted");
                same!(it.next_back(), None, "{what}: exhausted");
                same!(it.len(), 0, "{what}: exhausted length");
            }
        }
    }
    Ok(())
}

fn build(src: &mut Src, cx: &mut Cx) -> Result<(Map, Vec<(u64, u64)>), String> {
    let n = src.len(40);
    let mut map = if src.bool() { Map::default() } else { Map::with_capacity_and_hasher(src.usize(20), Pass) };
    let mut m: Vec<(u64, u64)> = vec![];
    let sorted = src.bool();
    for _ in 0..n {
        let k = if sorted { m.last().map_or(0, |x| x.0) + 1 + src.below(3) } else { src.below(50) };
        let v = src.below(1000);
        map.insert(k, v, &mut (), &mut ()).map_err(|_| "insert failed".to_string())?;
        match m.iter_mut().find(|x| x.0 == k) {
            Some(x) => x.1 = v,
            None => m.push((k, v)),
        }
    }
    // some maps that were larger before
    let cut = src.len(m.len() / 2);
    for _ in 0..cut {
        let i = src.usize(m.len());
        let (k, _) = m.remove(i);
        map.shift_remove(&k, &mut (), &mut ()).map_err(|_| "remove failed".to_string())?;
    }
    note!(cx, "{m:?}");
    Ok((map, m))
}

pub fn iterators(src: &mut Src, cx: &mut Cx) -> R {
    let (mut map, m) = build(src, cx)?;
    let keys: Vec<u64> = m.iter().map(|x| x.0).collect();
    let vals: Vec<u64> = m.iter().map(|x| x.1).collect();
    if m.len() > 2 {
        cx.nontrivial();
    }
    let set = || Set::from_iter(keys.clone(), &mut (), &mut ()).map_err(|_| "from_iter".to_string());
    let which = src.below(24);
    note!(cx, "iterator {which}");
    match which {
        0 => walk(src, "map.iter", map.iter().map(|(k, v)| (*k, *v)), m),
        1 => walk(src, "map.iter_mut", map.iter_mut().map(|(k, v)| (*k, *v)), m),
        2 => walk(src, "map.keys", map.keys().copied(), keys),
        3 => walk(src, "map.values", map.values().copied(), vals),
        4 => walk(src, "map.values_mut", map.values_mut().map(|v| *v), vals),
        5 => walk(src, "map.into_iter", map.into_iter(), m),
        6 => walk(src, "map.into_keys", map.into_keys(), keys),
        7 => walk(src, "map.into_values", map.into_values(), vals),
        8 => {
            let a = src.usize(m.len() + 1);
            let b = a + src.usize(m.len() - a + 1);
            let mid = m[a..b].to_vec();
            {
                let d = map.drain(a..b, &mut (), &mut ()).map_err(|_| "drain".to_string())?;
                walk(src, "map.drain", d, mid)?;
            }
            let rest: Vec<(u64, u64)> = m[..a].iter().chain(&m[b..]).copied().collect();
            same!(map.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), rest, "after the drain");
            for (i, (k, _)) in rest.iter().enumerate() {
                same!(map.get_index_of(k, &mut (), &mut ()), Ok(Some(i)), "lookup after the drain");
            }
            Ok(())
        }
        9 => {
            let s = set()?;
            walk(src, "set.iter", s.iter().copied(), keys.clone())
        }
        10 => {
            let s = set()?;
            walk(src, "set.into_iter", s.into_iter(), keys.clone())
        }
        11 => {
            let mut s = set()?;
            let a = src.usize(m.len() + 1);
            let b = a + src.usize(m.len() - a + 1);
            {
                let d = s.drain(a..b, &mut (), &mut ()).map_err(|_| "drain".to_string())?;
                walk(src, "set.drain", d, keys[a..b].to_vec())?;
            }
            let rest: Vec<u64> = keys[..a].iter().chain(&keys[b..]).copied().collect();
            same!(s.iter().copied().collect::<Vec<_>>(), rest, "after the drain");
            Ok(())
        }
        12 => walk(src, "slice.iter", map.as_slice().iter().map(|(k, v)| (*k, *v)), m),
        13 => walk(src, "slice.iter_mut", map.as_mut_slice().iter_mut().map(|(k, v)| (*k, *v)), m),
        14 => walk(src, "slice.keys", map.as_slice().keys().copied(), keys),
        15 => walk(src, "slice.values", map.as_slice().values().copied(), vals),
        16 => walk(src, "slice.values_mut", map.as_mut_slice().values_mut().map(|v| *v), vals),
        17 => walk(src, "boxed slice", map.into_boxed_slice().into_iter(), m),
        18 => walk(src, "boxed slice keys", map.into_boxed_slice().into_keys(), keys),
        19 => walk(src, "boxed slice values", map.into_boxed_slice().into_values(), vals),
        20 => {
            // clones continue independently, and the remaining slice is what is left
            let mut it = map.iter();
            let (a, b) = (src.len(m.len()), src.len(m.len()));
            for _ in 0..a {
                it.next();
            }
            for _ in 0..b {
                it.next_back();
            }
            let lo = a.min(m.len());
            let hi = m.len().saturating_sub(b).max(lo);
            let rest = m[lo..hi].to_vec();
            let left: Vec<(u64, u64)> = it.as_slice().iter().map(|(k, v)| (*k, *v)).collect();
            same!(left, rest, "as_slice of a partly consumed iterator");
            let c = it.clone();
            it.next();
            walk(src, "cloned iterator", c.map(|(k, v)| (*k, *v)), rest.clone())?;
            let left: Vec<(u64, u64)> = it.map(|(k, v)| (*k, *v)).collect();
            same!(left, rest.iter().skip(1).copied().collect::<Vec<_>>(), "the original after its clone ran");
            let mut k = map.keys();
            k.next();
            let kc = k.clone();
            if k.len() > 0 {
                same!(k[0], keys[1], "indexed keys");
                same!(k[k.len() - 1], keys[keys.len() - 1], "indexed keys");
            }
            k.next_back();
            same!(kc.copied().collect::<Vec<_>>(), keys.iter().skip(1).copied().collect::<Vec<_>>(), "cloned keys");
            let mut v = map.values();
            v.next_back();
            let vc = v.clone();
            same!(vc.copied().collect::<Vec<_>>(), vals[..vals.len().saturating_sub(1)].to_vec(), "cloned values");
            let s = set()?;
            let mut si = s.iter();
            si.next();
            same!(si.clone().copied().collect::<Vec<_>>(), keys.iter().skip(1).copied().collect::<Vec<_>>(), "cloned set iterator");
            Ok(())
        }
        21 => {
            // remaining slices of the other iterators
            let a = src.len(m.len());
            let rest: Vec<(u64, u64)> = m.iter().skip(a).copied().collect();
            let pairs = |s: &MSlice<u64, u64>| s.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>();
            {
                let mut it = map.iter_mut();
                for _ in 0..a {
                    it.next();
                }
                same!(pairs(it.as_slice()), rest, "as_slice of iter_mut");
                same!(pairs(it.into_slice()), rest, "into_slice of iter_mut");
            }
            let mut it = map.clone().into_iter();
            for _ in 0..a {
                it.next();
            }
            same!(pairs(it.as_slice()), rest, "as_slice of into_iter");
            same!(pairs(it.as_mut_slice()), rest, "as_mut_slice of into_iter");
            let mut d = map.drain(.., &mut (), &mut ()).map_err(|_| "drain".to_string())?;
            for _ in 0..a {
                d.next();
            }
            same!(pairs(d.as_slice()), rest, "as_slice of drain");
            Ok(())
        }
        22 => {
            // writing through the mutable iterators reaches the map
            let mut w = vals.clone();
            let back = src.bool();
            if back {
                for (i, v) in map.values_mut().rev().enumerate() {
                    *v += i as u64;
                }
                for (i, v) in w.iter_mut().rev().enumerate() {
                    *v += i as u64;
                }
            } else {
                for (i, (_, v)) in map.iter_mut().enumerate() {
                    *v += i as u64;
                }
                for (i, v) in w.iter_mut().enumerate() {
                    *v += i as u64;
                }
            }
            same!(map.values().copied().collect::<Vec<_>>(), w, "values after writing");
            Ok(())
        }
        _ => {
            let mut n = 0;
            for ((k, v), x) in (&map).into_iter().zip(&m) {
                same!((*k, *v), *x, "pair {n}");
                n += 1;
            }
            same!(n, m.len(), "pairs by reference");
            for (_, v) in &mut map {
                *v += 1;
            }
            same!(map.values().map(|v| v - 1).collect::<Vec<_>>(), vals, "pairs by mutable reference");
            Ok(())
        }
    }
}

fn bound(src: &mut Src, n: usize) -> Bound<usize> {
    let i = match src.below(8) {
        0 => usize::MAX,
        1 => n + 1 + src.usize(3),
        _ => src.usize(n + 1),
    };
    match src.below(3) {
        0 => Bound::Unbounded,
        1 => Bound::Included(i),
        _ => Bound::Excluded(i),
    }
}

/// The half-open range meant by two bounds, if it lies within `n` elements.
fn meaning(a: Bound<usize>, b: Bound<usize>, n: usize) -> Option<(usize, usize)> {
    let lo = match a {
        Bound::Unbounded => 0u128,
        Bound::Included(i) => i as u128,
        Bound::Excluded(i) => i as u128 + 1,
    };
    let hi = match b {
        Bound::Unbounded => n as u128,
        Bound::Included(i) => i as u128 + 1,
        Bound::Excluded(i) => i as u128,
    };
    (lo <= hi && hi <= n as u128).then_some((lo as usize, hi as usize))
}

fn pairs(s: &MSlice<u64, u64>) -> Vec<(u64, u64)> {
    s.iter().map(|(k, v)| (*k, *v)).collect()
}

pub fn slices(src: &mut Src, cx: &mut Cx) -> R {
    let (mut map, mut m) = build(src, cx)?;
    let n = m.len();
    if n > 2 {
        cx.nontrivial();
    }
    let keys: Vec<u64> = m.iter().map(|x| x.0).collect();
    let set = Set::from_iter(keys.clone(), &mut (), &mut ()).map_err(|_| "from_iter".to_string())?;
    let rounds = 1 + src.len(6);
    for _ in 0..rounds {
        src.begin();
        // a view of the map: whole, or a part of it
        let (lo, hi) = {
            let a = src.usize(n + 1);
            let b = a + src.usize(n - a + 1);
            if src.bool() { (0, n) } else { (a, b) }
        };
        let len = hi - lo;
        let part = m[lo..hi].to_vec();
        let pkeys = keys[lo..hi].to_vec();
        let op = src.below(16);
        note!(cx, "view {lo}..{hi}, operation {op}");
        let view: &MSlice<u64, u64> = match map.get_range(lo..hi) {
            Some(v) => v,
            None => return Err(format!("range {lo}..{hi} of {n} refused")),
        };
        let sview: &SSlice<u64> = match set.get_range(lo..hi) {
            Some(v) => v,
            None => return Err(format!("range {lo}..{hi} of the set refused")),
        };
        same!(view.len(), len, "length of the view");
        same!(view.is_empty(), len == 0, "emptiness of the view");
        same!(sview.len(), len, "length of the set view");
        match op {
            0 | 1 => {
                let (a, b) = (bound(src, len), bound(src, len));
                note!(cx, "  range {a:?} {b:?}");
                let want = meaning(a, b, len);
                match (view.get_range((a, b)), want) {
                    (Some(v), Some((x, y))) => same!(pairs(v), part[x..y].to_vec(), "get_range"),
                    (None, None) => {}
                    (v, w) => return Err(format!("get_range gives {v:?}, expected {w:?}")),
                }
                match (sview.get_range((a, b)), want) {
                    (Some(v), Some((x, y))) => same!(v.iter().copied().collect::<Vec<_>>(), pkeys[x..y].to_vec(), "set get_range"),
                    (None, None) => {}
                    (v, w) => return Err(format!("set get_range gives {v:?}, expected {w:?}")),
                }
                let r = pbt::catch(|| pairs(&view[(a, b)]));
                same!(r.ok(), want.map(|(x, y)| part[x..y].to_vec()), "indexing by bounds");
                let r = pbt::catch(|| sview[(a, b)].iter().copied().collect::<Vec<_>>());
                same!(r.ok(), want.map(|(x, y)| pkeys[x..y].to_vec()), "indexing the set view by bounds");
                if lo == 0 && hi == n {
                    // the same range on the map itself, also for draining
                    match (map.get_range((a, b)), want) {
                        (Some(v), Some((x, y))) => same!(pairs(v), part[x..y].to_vec(), "map get_range"),
                        (None, None) => {}
                        (v, w) => return Err(format!("map get_range gives {v:?}, expected {w:?}")),
                    }
                    let mut copy = map.clone();
                    let r = pbt::catch(|| copy.drain((a, b), &mut (), &mut ()).map(|d| d.collect::<Vec<_>>()));
                    match (r, want) {
                        (Ok(Ok(v)), Some((x, y))) => same!(v, part[x..y].to_vec(), "drain by bounds"),
                        (Err(_), None) => same!(pairs(copy.as_slice()), m, "a refused drain"),
                        (r, w) => return Err(format!("drain({a:?}, {b:?}) gives {r:?}, expected {w:?}")),
                    }
                }
            }
            2 => {
                let (x, y) = (src.usize(len + 2), src.usize(len + 2));
                note!(cx, "  indexing {x} {y}");
                let whole = &part[..];
                macro_rules! ix {
                    ($r:expr) => {{
                        let got = pbt::catch(|| pairs(&view[$r])).ok();
                        let want = whole.get($r).map(|s| s.to_vec());
                        same!(got, want, "view indexing by {:?}", $r);
                        let got = pbt::catch(|| sview[$r].iter().copied().collect::<Vec<_>>()).ok();
                        let want = pkeys.get($r).map(|s| s.to_vec());
                        same!(got, want, "set view indexing by {:?}", $r);
                        if lo == 0 && hi == n {
                            let got = pbt::catch(|| pairs(&map[$r])).ok();
                            let want = whole.get($r).map(|s| s.to_vec());
                            same!(got, want, "map indexing by {:?}", $r);
                            let got = pbt::catch(|| set[$r].iter().copied().collect::<Vec<_>>()).ok();
                            let want = pkeys.get($r).map(|s| s.to_vec());
                            same!(got, want, "set indexing by {:?}", $r);
                        }
                    }};
                }
                ix!(x..y);
                ix!(x..=y);
                ix!(x..);
                ix!(..y);
                ix!(..=y);
                ix!(..);
                let got = pbt::catch(|| view[x]).ok();
                same!(got, part.get(x).map(|p| p.1), "view[{x}]");
                let got = pbt::catch(|| sview[x]).ok();
                same!(got, pkeys.get(x).copied(), "set view[{x}]");
            }
            3 => {
                let x = src.usize(len + 2);
                let got = pbt::catch(|| {
                    let (a, b) = view.split_at(x);
                    (pairs(a), pairs(b))
                })
                .ok();
                let want = (x <= len).then(|| (part[..x].to_vec(), part[x..].to_vec()));
                same!(got, want, "split_at({x})");
                let got = pbt::catch(|| {
                    let (a, b) = sview.split_at(x);
                    (a.iter().copied().collect::<Vec<_>>(), b.iter().copied().collect::<Vec<_>>())
                })
                .ok();
                let want = (x <= len).then(|| (pkeys[..x].to_vec(), pkeys[x..].to_vec()));
                same!(got, want, "set split_at({x})");
            }
            4 => {
                let f = view.split_first().map(|((k, v), r)| ((*k, *v), pairs(r)));
                same!(f, part.split_first().map(|(a, r)| (*a, r.to_vec())), "split_first");
                let f = view.split_last().map(|((k, v), r)| ((*k, *v), pairs(r)));
                same!(f, part.split_last().map(|(a, r)| (*a, r.to_vec())), "split_last");
                let f = sview.split_first().map(|(k, r)| (*k, r.iter().copied().collect::<Vec<_>>()));
                same!(f, pkeys.split_first().map(|(a, r)| (*a, r.to_vec())), "set split_first");
                let f = sview.split_last().map(|(k, r)| (*k, r.iter().copied().collect::<Vec<_>>()));
                same!(f, pkeys.split_last().map(|(a, r)| (*a, r.to_vec())), "set split_last");
            }
            5 => {
                let x = src.usize(len + 2);
                same!(view.get_index(x).map(|(k, v)| (*k, *v)), part.get(x).copied(), "get_index({x})");
                same!(sview.get_index(x).copied(), pkeys.get(x).copied(), "set get_index({x})");
                same!(view.first().map(|(k, v)| (*k, *v)), part.first().copied(), "first");
                same!(view.last().map(|(k, v)| (*k, *v)), part.last().copied(), "last");
                same!(sview.first().copied(), pkeys.first().copied(), "set first");
                same!(sview.last().copied(), pkeys.last().copied(), "set last");
            }
            6 | 7 => {
                // searches are only defined on sorted views
                let mut ord = part.clone();
                ord.sort();
                let sorted = Map::from_iter(ord.clone(), &mut (), &mut ()).map_err(|_| "from_iter".to_string())?;
                let sset = Set::from_iter(ord.iter().map(|x| x.0), &mut (), &mut ()).map_err(|_| "from_iter".to_string())?;
                let x = src.below(60);
                let want = ord.binary_search_by(|p| p.0.cmp(&x));
                same!(sorted.binary_search_keys(&x), want, "binary_search_keys({x})");
                same!(sorted.as_slice().binary_search_keys(&x), want, "slice binary_search_keys({x})");
                same!(sorted.binary_search_by(|k, _| k.cmp(&x)), want, "binary_search_by({x})");
                same!(sorted.as_slice().binary_search_by_key(&x, |k, _| *k), want, "binary_search_by_key({x})");
                same!(sset.binary_search(&x), want, "set binary_search({x})");
                same!(sset.binary_search_by(|k| k.cmp(&x)), want, "set binary_search_by({x})");
                same!(sset.as_slice().binary_search_by_key(&x, |k| *k), want, "set binary_search_by_key({x})");
                let pp = ord.partition_point(|p| p.0 < x);
                same!(sorted.partition_point(|k, _| *k < x), pp, "partition_point({x})");
                same!(sorted.as_slice().partition_point(|k, _| *k < x), pp, "slice partition_point({x})");
                same!(sset.partition_point(|k| *k < x), pp, "set partition_point({x})");
                same!(sset.as_slice().partition_point(|k| *k < x), pp, "set slice partition_point({x})");
            }
            8 => {
                // comparisons of views
                let a2 = src.usize(n + 1);
                let b2 = a2 + src.usize(n - a2 + 1);
                let other = map.get_range(a2..b2).unwrap();
                let opart = m[a2..b2].to_vec();
                same!(view == other, part == opart, "equality of views");
                same!(view == &opart[..], part == opart, "equality with a slice");
                same!(&opart[..] == view, part == opart, "equality with a slice");
                same!(view.cmp(other), part.cmp(&opart), "order of views");
                same!(view.partial_cmp(other), part.partial_cmp(&opart), "partial order of views");
                let so = set.get_range(a2..b2).unwrap();
                same!(sview == so, pkeys == keys[a2..b2], "equality of set views");
                same!(sview == &keys[a2..b2], pkeys == keys[a2..b2], "equality of a set view with a slice");
                same!(sview.cmp(so), pkeys.as_slice().cmp(&keys[a2..b2]), "order of set views");
                same!(hash_of(view) == hash_of(other), part == opart, "hashes of views");
                same!(hash_of(sview) == hash_of(so), pkeys == keys[a2..b2], "hashes of set views");
            }
            9 | 10 => {
                // disjoint mutable access
                let v = map.get_range_mut(lo..hi).unwrap();
                macro_rules! disjoint {
                    ($n:literal) => {{
                        let mut ix = [0usize; $n];
                        for j in 0..$n {
                            // Mostly different positions, at times one from before.
                            ix[j] = match src.below(8) {
                                0 if j > 0 => ix[src.usize(j)],
                                1 => src.usize(len + 2),
                                _ => (0..len).find(|x| !ix[..j].contains(x)).unwrap_or(len),
                            };
                        }
                        note!(cx, "  disjoint {ix:?}");
                        let ok = ix.iter().all(|i| *i < len) && (0..$n).all(|j| !ix[..j].contains(&ix[j]));
                        match v.get_disjoint_mut(ix) {
                            Ok(a) => {
                                ensure!(ok, "indices {ix:?} of {len} were accepted");
                                for (j, (k, v)) in a.into_iter().enumerate() {
                                    same!((*k, *v), part[ix[j]], "disjoint element {j}");
                                    *v += 10_000 * (j as u64 + 1);
                                    m[lo + ix[j]].1 += 10_000 * (j as u64 + 1);
                                }
                            }
                            Err(e) => {
                                ensure!(!ok, "indices {ix:?} of {len} were refused: {e:?}");
                            }
                        }
                    }};
                }
                match src.below(5) {
                    0 => disjoint!(1),
                    1 => disjoint!(2),
                    2 => disjoint!(3),
                    3 => disjoint!(5),
                    _ => disjoint!(8),
                }
            }
            11 => {
                let x = src.usize(len + 2);
                let v = map.get_range_mut(lo..hi).unwrap();
                let got = pbt::catch(|| {
                    let (a, b) = v.split_at_mut(x);
                    for y in a.values_mut() {
                        *y += 1;
                    }
                    for (_, y) in b.iter_mut() {
                        *y += 2;
                    }
                });
                same!(got.is_ok(), x <= len, "split_at_mut({x}) of {len}");
                if x <= len {
                    for (j, p) in m[lo..hi].iter_mut().enumerate() {
                        p.1 += if j < x { 1 } else { 2 };
                    }
                }
            }
            12 => {
                let v = map.get_range_mut(lo..hi).unwrap();
                if let Some(((k, v), rest)) = v.split_first_mut() {
                    same!((*k, *v), part[0], "split_first_mut");
                    *v += 5;
                    m[lo].1 += 5;
                    same!(rest.len(), len - 1, "rest of split_first_mut");
                    if let Some(((k, v), rest)) = rest.split_last_mut() {
                        same!((*k, *v), part[len - 1], "split_last_mut");
                        *v += 7;
                        m[hi - 1].1 += 7;
                        same!(rest.len(), len - 2, "rest of split_last_mut");
                    }
                }
            }
            13 => {
                let x = src.usize(len + 2);
                let v = map.get_range_mut(lo..hi).unwrap();
                match v.get_index_mut(x) {
                    Some((k, v)) => {
                        ensure!(x < len, "index {x} of {len} accepted");
                        same!((*k, *v), part[x], "get_index_mut");
                        *v += 3;
                        m[lo + x].1 += 3;
                    }
                    None => ensure!(x >= len, "index {x} of {len} refused"),
                }
                let v = map.get_range_mut(lo..hi).unwrap();
                if let Some((_, v)) = v.first_mut() {
                    *v += 1;
                    m[lo].1 += 1;
                }
                if let Some((_, v)) = map.get_range_mut(lo..hi).unwrap().last_mut() {
                    *v += 1;
                    m[hi - 1].1 += 1;
                }
                let got = pbt::catch(|| map.get_range_mut(lo..hi).unwrap()[x] += 1).is_ok();
                same!(got, x < len, "view[{x}] of {len}");
                if got {
                    m[lo + x].1 += 1;
                }
            }
            14 => {
                let b: Box<MSlice<u64, u64>> = view.into();
                same!(pairs(&b), part, "boxed copy of a view");
                same!(pairs(&b.clone()), part, "clone of a boxed view");
                let b: Box<SSlice<u64>> = sview.into();
                same!(b.clone().into_iter().collect::<Vec<_>>(), pkeys, "boxed copy of a set view");
                let text = format!("{view:?}");
                same!(text, format!("{part:?}"), "debug text of a view");
                same!(format!("{sview:?}"), format!("{pkeys:?}"), "debug text of a set view");
            }
            _ => {
                let (a, b) = (bound(src, n), bound(src, n));
                let want = meaning(a, b, n);
                match (map.get_range_mut((a, b)), want) {
                    (Some(v), Some((x, y))) => {
                        for z in v.values_mut() {
                            *z += 9;
                        }
                        for p in &mut m[x..y] {
                            p.1 += 9;
                        }
                    }
                    (None, None) => {}
                    (v, w) => return Err(format!("get_range_mut gives {v:?}, expected {w:?}")),
                }
            }
        }
        src.end();
        same!(pairs(map.as_slice()), m, "the map afterwards");
    }
    Ok(())
}

fn hash_of<T: std::hash::Hash + ?Sized>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::hash::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
