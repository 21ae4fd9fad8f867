//! C32: the vector of instance variables, mounted as it is.

#![allow(dead_code, unused)]

use pbt::{Cx, Prop, R, Src, Suite, ensure, note, same};
use std::num::NonZeroU64;

/// A value, never zero like the original.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(transparent)]
pub struct Value(NonZeroU64);

#[path = "/repo/monoruby/src/value/rvalue/ivar_table.rs"]
mod ivar_table;

use ivar_table::{MONOVEC_CAPA, MONOVEC_LEN, MONOVEC_PTR, MonoVec};

fn word<T>(v: &MonoVec<T>, offset: usize) -> usize {
    assert!(offset + 8 <= size_of::<MonoVec<T>>() && offset % 8 == 0, "offset {offset} is outside the vector");
    unsafe { *((v as *const MonoVec<T> as *const u8).add(offset) as *const usize) }
}

fn check(v: &MonoVec<Option<Value>>, model: &[Option<Value>]) -> R {
    same!(v.len(), model.len(), "the length");
    ensure!(&v[..] == model, "the contents are {:?}, expected {model:?}", &v[..]);
    // What compiled code reads.
    same!(word(v, MONOVEC_LEN), model.len(), "the length at its published offset");
    let cap = word(v, MONOVEC_CAPA);
    ensure!(cap >= model.len(), "the capacity at its published offset is {cap}, the length {}", model.len());
    let ptr = word(v, MONOVEC_PTR) as *const Option<Value>;
    ensure!(std::ptr::eq(ptr, v.as_ptr()), "the pointer at its published offset is not that of the contents");
    for (i, m) in model.iter().enumerate() {
        let got = unsafe { *ptr.add(i) };
        ensure!(got == *m, "position {i} read through the pointer is {got:?}, expected {m:?}");
    }
    Ok(())
}

fn tables(src: &mut Src, cx: &mut Cx) -> R {
    let mut n = 0u64;
    let mut fresh = || {
        n += 1;
        Value(NonZeroU64::new(n << 3 | 4).unwrap())
    };
    let cap = src.pick(&[0usize, 0, 1, 2, 3, 4, 5, 8, 20, 33]);
    note!(cx, "capacity {cap}");
    let mut vs = vec![(MonoVec::<Option<Value>>::with_capacity(cap), Vec::<Option<Value>>::new())];
    check(&vs[0].0, &vs[0].1)?;
    ensure!(word(&vs[0].0, MONOVEC_CAPA) >= cap, "a capacity of {cap} was asked for");
    let mut grown = 0;
    while src.more(16) {
        src.begin();
        let k = src.usize(vs.len());
        let before = word(&vs[k].0, MONOVEC_CAPA);
        let count = vs.len();
        let (v, m) = &mut vs[k];
        match src.weighted(&[8, 5, 3, 5, 2, 1, 1]) {
            0 => {
                let x = if src.chance(1, 5) { None } else { Some(fresh()) };
                note!(cx, "{k}: push {x:?}");
                v.push(x);
                m.push(x);
            }
            1 => {
                let to = if src.chance(1, 4) { src.usize(80) } else { m.len() + src.usize(6) };
                note!(cx, "{k}: resize from {} to {to}", m.len());
                v.resize(to);
                if to > m.len() {
                    m.resize(to, None);
                }
            }
            2 => {
                let more = src.usize(40);
                note!(cx, "{k}: reserve {more} beyond {}", m.len());
                v.reserve(more);
                let cap = word(v, MONOVEC_CAPA);
                ensure!(cap >= m.len() + more, "the capacity is {cap} after reserving {more} beyond {}", m.len());
            }
            3 if !m.is_empty() => {
                let i = src.usize(m.len());
                let x = if src.chance(1, 5) { None } else { Some(fresh()) };
                note!(cx, "{k}: [{i}] = {x:?}");
                v[i] = x;
                m[i] = x;
            }
            4 if count < 4 => {
                note!(cx, "{k}: clone");
                let c = (vs[k].0.clone(), vs[k].1.clone());
                vs.push(c);
            }
            5 if count > 1 => {
                note!(cx, "{k}: drop");
                vs.remove(k);
            }
            6 => {
                note!(cx, "{k}: reverse");
                v.reverse();
                m.reverse();
            }
            _ => {}
        }
        for (v, m) in &vs {
            check(v, m)?;
        }
        if let Some((v, _)) = vs.get(k) {
            grown += (word(v, MONOVEC_CAPA) > before && before > 0) as u32;
        }
        src.end();
    }
    if grown > 0 {
        cx.nontrivial();
        cx.label("grown");
    }
    Ok(())
}

/// Other element types, as the table of functions uses.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(align(32))]
struct Wide([u64; 5]);

fn others(src: &mut Src, cx: &mut Cx) -> R {
    fn go<T: Clone + PartialEq + std::fmt::Debug>(src: &mut Src, cx: &mut Cx, make: fn(u64) -> T) -> R {
        let cap = src.usize(10);
        note!(cx, "capacity {cap}");
        let mut v = MonoVec::<T>::with_capacity(cap);
        let mut m: Vec<T> = vec![];
        let mut n = 0;
        while src.more(20) {
            n += 1;
            match src.weighted(&[8, 1, 1, 2]) {
                0 => {
                    v.push(make(n));
                    m.push(make(n));
                }
                1 => v.reserve(src.usize(20)),
                2 => {
                    let c = v.clone();
                    ensure!(c[..] == m[..], "the clone holds {:?}, expected {m:?}", &c[..]);
                    v = c;
                }
                _ if !m.is_empty() => {
                    let i = src.usize(m.len());
                    v[i] = make(n);
                    m[i] = make(n);
                }
                _ => {}
            }
            ensure!(v[..] == m[..], "holds {:?}, expected {m:?}", &v[..]);
            ensure!(v.as_ptr() as usize % align_of::<T>() == 0, "the contents are not aligned");
        }
        if m.len() > cap {
            cx.nontrivial();
        }
        Ok(())
    }
    match src.below(3) {
        0 => go(src, cx, |n| n as u8),
        1 => go(src, cx, |n| Wide([n; 5])),
        _ => go(src, cx, |n| (n, n as u16)),
    }
}

fn main() {
    pbt::main(&[Prop {
        id: "C32",
        rule: "a buffer grew while it held values",
        assumptions: &["an unset variable is the all-zero word, as for the original value type", "rustc and its address sanitizer"],
        level: "exploration",
        known: &[],
        suites: &[
            Suite { name: "tables", cases: 2_500_000, run: tables },
            Suite { name: "others", cases: 1_500_000, run: others },
        ],
    }]);
}
