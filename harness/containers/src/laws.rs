//! C17: equality and hashing of the built-in key types.

use pbt::{Cx, Prop, R, Src, Suite, ensure, note, same};
use ruby_traits::{Equivalent, RubyEql, RubyHash, RubySymEql, RubySymHash, SymEquivalent};
use std::borrow::Borrow;
use std::fmt::Debug;
use std::hash::Hasher;

#[derive(Debug, PartialEq)]
struct Vm(u32);
#[derive(Debug, PartialEq)]
struct Gl(u32);
#[derive(Debug, PartialEq, Clone)]
struct Fault(u64);

/// Remembers everything written to it.
#[derive(Default, Clone, PartialEq, Debug)]
struct Tape(Vec<u8>);

impl Hasher for Tape {
    fn finish(&self) -> u64 {
        unreachable!("nothing here finishes a hash")
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.extend_from_slice(bytes);
    }
}

fn tape<T: RubyHash<Vm, Gl, Fault> + ?Sized>(x: &T) -> Result<Tape, String> {
    let mut t = Tape::default();
    let (mut e, mut g) = (Vm(1), Gl(2));
    x.ruby_hash(&mut t, &mut e, &mut g).map_err(|f| format!("hashing failed: {f:?}"))?;
    Ok(t)
}

fn eq<T: RubyEql<Vm, Gl, Fault> + ?Sized>(a: &T, b: &T) -> Result<bool, String> {
    a.eql(b, &mut Vm(1), &mut Gl(2)).map_err(|f| format!("comparing failed: {f:?}"))
}

/// The laws of one pair of values.
fn laws<T>(what: &str, a: &T, b: &T, equal: bool) -> R
where
    T: RubyEql<Vm, Gl, Fault> + RubyHash<Vm, Gl, Fault> + ?Sized + Debug,
{
    ensure!(eq(a, a)? && eq(b, b)?, "{what}: {a:?} or {b:?} is not equal to itself");
    same!(eq(a, b)?, equal, "{what}: {a:?} eql {b:?}");
    same!(eq(b, a)?, equal, "{what}: {b:?} eql {a:?}");
    let (ta, tb) = (tape(a)?, tape(b)?);
    same!(tape(a)?, ta, "{what}: hashing {a:?} twice");
    if equal {
        same!(tb, ta, "{what}: hashes of equal values {a:?} and {b:?}");
    }
    Ok(())
}

/// A value type with its reference forms.
fn scalar<T>(what: &str, a: T, b: T) -> R
where
    T: PartialEq + Debug + Clone,
    T: RubyEql<Vm, Gl, Fault> + RubyHash<Vm, Gl, Fault>,
    for<'a> &'a T: RubyEql<Vm, Gl, Fault> + RubyHash<Vm, Gl, Fault>,
    for<'a> &'a mut T: RubyEql<Vm, Gl, Fault> + RubyHash<Vm, Gl, Fault>,
{
    let equal = a == b;
    laws(what, &a, &b, equal)?;
    laws(what, &&a, &&b, equal)?;
    let ta = tape(&a)?;
    same!(tape(&&a)?, ta, "{what}: hash of a reference to {a:?}");
    let (mut x, mut y) = (a.clone(), b.clone());
    {
        let (p, q) = (&mut x, &mut y);
        laws(what, &p, &q, equal)?;
        same!(tape(&p)?, ta, "{what}: hash of a mutable reference to {a:?}");
    }
    if !equal {
        ensure!(tape(&b)? != ta, "{what}: {a:?} and {b:?} feed the same bytes to the hasher");
    }
    same!(Equivalent::<T, Vm, Gl, Fault>::equivalent(&a, &b, &mut Vm(1), &mut Gl(2)), Ok(equal), "{what}: {a:?} equivalent {b:?}");
    // sequences and options of it
    laws(what, &Some(a.clone()), &Some(b.clone()), equal)?;
    laws(what, &Some(a.clone()), &None, false)?;
    laws::<Option<T>>(what, &None, &None, true)?;
    laws(what, &vec![a.clone(), b.clone()], &vec![b.clone(), a.clone()], equal)?;
    laws(what, &vec![a.clone(), b.clone()], &vec![a.clone(), b.clone()], true)?;
    same!(eq::<[T]>(&[a.clone(), b.clone()], &[a.clone()])?, false, "{what}: slices of different lengths");
    same!(eq::<[T]>(&[a.clone(), b.clone()], &[a.clone(), b.clone()])?, true, "{what}: slices");
    same!(eq::<[T]>(&[a.clone()], &[b.clone()])?, equal, "{what}: one-element slices");
    let v = vec![b.clone(), a.clone()];
    let s: &[T] = v.borrow();
    same!(Equivalent::<Vec<T>, Vm, Gl, Fault>::equivalent(s, &v, &mut Vm(1), &mut Gl(2)), Ok(true), "{what}: a slice and its vector");
    Ok(())
}

fn int(src: &mut Src) -> u64 {
    match src.below(4) {
        0 => src.below(4),
        1 => src.pick(&[0, u64::MAX, i64::MAX as u64, i64::MIN as u64, 0xff, 0x100, 0x80, 0x7f, 0xffff, 0x1_0000, 0x8000_0000, u32::MAX as u64, 1 << 32]),
        2 => 1 << src.below(64),
        _ => src.u64(),
    }
}

fn text(src: &mut Src) -> String {
    let n = src.len(6);
    (0..n).map(|_| src.pick(&['a', 'b', '\0', 'é', '\u{ffff}', '😀', 'A', '\u{ff}'])).collect()
}

pub fn builtin(src: &mut Src, cx: &mut Cx) -> R {
    let which = src.below(15);
    let (a, b) = (int(src), int(src));
    // half of the pairs are equal in the low bits
    let b = match src.below(4) {
        0 => a,
        1 => a ^ 1 << src.below(64),
        _ => b,
    };
    let (s, t) = (text(src), text(src));
    let t = if src.bool() { s.clone() } else { t };
    note!(cx, "type {which}: {a} {b} {s:?} {t:?}");
    cx.nontrivial();
    match which {
        0 => laws("()", &(), &(), true),
        1 => scalar("bool", a & 1 == 1, b & 1 == 1),
        2 => {
            let c = |x: u64| char::from_u32((x % 0x11_0000) as u32).unwrap_or('x');
            scalar("char", c(a), c(b))
        }
        3 => scalar("i8", a as i8, b as i8),
        4 => scalar("u8", a as u8, b as u8),
        5 => scalar("i16", a as i16, b as i16),
        6 => scalar("u16", a as u16, b as u16),
        7 => scalar("i32", a as i32, b as i32),
        8 => scalar("u32", a as u32, b as u32),
        9 => scalar("i64", a as i64, b as i64),
        10 => scalar("u64", a, b),
        11 => scalar("isize", a as isize, b as isize),
        12 => scalar("usize", a as usize, b as usize),
        13 => {
            laws::<str>("str", &s, &t, s == t)?;
            same!(tape::<str>(&s)?, tape(&s)?, "hashes of {s:?} as str and as String");
            same!(tape(&s.as_str())?, tape(&s)?, "hashes of {s:?} as &str and as String");
            if s != t {
                ensure!(tape::<str>(&s)? != tape::<str>(&t)?, "{s:?} and {t:?} feed the same bytes to the hasher");
            }
            let r = Equivalent::<String, Vm, Gl, Fault>::equivalent(s.as_str(), &t, &mut Vm(1), &mut Gl(2));
            same!(r, Ok(s == t), "{s:?} equivalent to the String {t:?}");
            let r = Equivalent::<&str, Vm, Gl, Fault>::equivalent(s.as_str(), &t.as_str(), &mut Vm(1), &mut Gl(2));
            same!(r, Ok(s == t), "{s:?} equivalent to the &str {t:?}");
            // transitivity over three spellings
            let u = text(src);
            let (ab, bc, ac) = (eq::<str>(&s, &t)?, eq::<str>(&t, &u)?, eq::<str>(&s, &u)?);
            ensure!(!(ab && bc) || ac, "equality of {s:?}, {t:?}, {u:?} is not transitive");
            Ok(())
        }
        _ => scalar("String", s, t),
    }
}

/// An element that logs the questions it is asked and may fail.
#[derive(Debug, Clone, PartialEq)]
struct El {
    tag: u64,
    pos: usize,
    fails: bool,
}

thread_local! {
    static ASKED: std::cell::RefCell<Vec<usize>> = const { std::cell::RefCell::new(vec![]) };
}

fn asked() -> Vec<usize> {
    ASKED.with(|a| std::mem::take(&mut *a.borrow_mut()))
}

impl RubyEql<Vm, Gl, Fault> for El {
    fn eql(&self, o: &Self, e: &mut Vm, g: &mut Gl) -> Result<bool, Fault> {
        if *e != Vm(1) || *g != Gl(2) {
            ASKED.with(|a| a.borrow_mut().push(usize::MAX));
        }
        ASKED.with(|a| a.borrow_mut().push(self.pos));
        if self.fails || o.fails {
            return Err(Fault(self.pos as u64));
        }
        Ok(self.tag == o.tag)
    }
}
impl RubyHash<Vm, Gl, Fault> for El {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, e: &mut Vm, g: &mut Gl) -> Result<(), Fault> {
        if *e != Vm(1) || *g != Gl(2) {
            ASKED.with(|a| a.borrow_mut().push(usize::MAX));
        }
        ASKED.with(|a| a.borrow_mut().push(self.pos));
        if self.fails {
            return Err(Fault(self.pos as u64));
        }
        s.write_u64(0xABCD_0000_0000_0000 | self.tag << 16 | self.pos as u64);
        Ok(())
    }
}
impl RubySymEql for El {
    fn eql(&self, o: &Self) -> bool {
        self.tag == o.tag
    }
}
impl RubySymHash for El {
    fn ruby_hash<H: Hasher>(&self, s: &mut H) {
        s.write_u64(self.tag)
    }
}

type Nest = Vec<Option<Vec<El>>>;

fn nest(src: &mut Src) -> (Nest, Vec<El>) {
    let mut flat = vec![];
    let n = src.len(5);
    let mut out = vec![];
    for _ in 0..n {
        if src.chance(1, 5) {
            out.push(None);
            continue;
        }
        let k = src.len(6);
        let mut row = vec![];
        for _ in 0..k {
            let x = El { tag: src.below(3), pos: flat.len(), fails: false };
            flat.push(x.clone());
            row.push(x);
        }
        out.push(Some(row));
    }
    (out, flat)
}

fn nth(x: &mut Nest, i: usize) -> &mut El {
    x.iter_mut().flatten().flatten().nth(i).unwrap()
}

/// Nested sequences whose elements fail or differ at chosen places.
pub fn sequences(src: &mut Src, cx: &mut Cx) -> R {
    asked();
    let (a, flat) = nest(src);
    let mut a = a;
    let mut b = a.clone();
    let n = flat.len();
    let fail = if n > 0 && src.chance(2, 3) { Some(src.usize(n)) } else { None };
    let differ = if n > 0 && src.bool() { Some(src.usize(n)) } else { None };
    if let Some(i) = fail {
        if src.bool() {
            nth(&mut a, i).fails = true;
        } else {
            nth(&mut b, i).fails = true;
        }
    }
    if let Some(i) = differ {
        nth(&mut b, i).tag += 7;
    }
    note!(cx, "{a:?} fail {fail:?} differ {differ:?}");
    let run = |a: &Nest, b: &Nest| RubyEql::<Vm, Gl, Fault>::eql(a, b, &mut Vm(1), &mut Gl(2));
    let r = run(&a, &b);
    let log = asked();
    let stop = match (fail, differ) {
        (Some(f), Some(d)) if f <= d => Some((f, Err(Fault(f as u64)))),
        (_, Some(d)) => Some((d, Ok(false))),
        (Some(f), None) => Some((f, Err(Fault(f as u64)))),
        _ => None,
    };
    match stop {
        Some((i, want)) => {
            same!(r, want, "comparison with a failing element at {fail:?} and a differing one at {differ:?}");
            same!(log, (0..=i).collect::<Vec<_>>(), "elements asked");
        }
        None => {
            same!(r, Ok(true), "comparison of equal sequences");
            same!(log, (0..n).collect::<Vec<_>>(), "elements asked");
        }
    }
    // one row as a slice
    if let Some(row) = a.iter().flatten().find(|r| !r.is_empty()) {
        let clean: Vec<El> = row.iter().map(|x| El { fails: false, ..x.clone() }).collect();
        let mut other = clean.clone();
        let i = src.usize(other.len());
        let how = src.below(3);
        match how {
            0 => other[i].tag += 5,
            1 => other[i].fails = true,
            _ => {}
        }
        let s: &[El] = &clean;
        let r = RubyEql::<Vm, Gl, Fault>::eql(s, &other[..], &mut Vm(1), &mut Gl(2));
        let pos = clean[i].pos;
        same!(r, [Ok(false), Err(Fault(pos as u64)), Ok(true)][how as usize].clone(), "comparison of slices");
        let first = clean[0].pos;
        let last = if how == 2 { clean.last().unwrap().pos } else { pos };
        same!(asked(), (first..=last).collect::<Vec<_>>(), "elements of the slice asked");
        let r = Equivalent::<Vec<El>, Vm, Gl, Fault>::equivalent(s, &other, &mut Vm(1), &mut Gl(2));
        same!(r, [Ok(false), Err(Fault(pos as u64)), Ok(true)][how as usize].clone(), "slice and vector");
        asked();
        let x = &clean[i];
        same!(SymEquivalent::equivalent(x, &other[i]), how != 0, "infallible equivalence");
    }
    // a sequence is not equal to one that is longer
    let mut longer = a.clone();
    match src.below(3) {
        0 => longer.push(None),
        1 => longer.push(Some(vec![])),
        _ => match longer.iter_mut().flatten().last() {
            Some(row) => row.push(El { tag: 0, pos: 999, fails: false }),
            None => longer.push(None),
        },
    }
    ensure!(run(&a, &longer) != Ok(true) && run(&longer, &a) != Ok(true), "sequences of different lengths are equal");
    asked();
    // hashing
    let mut t = Tape::default();
    let r = a.ruby_hash(&mut t, &mut Vm(1), &mut Gl(2));
    let log = asked();
    let bad = flat.iter().position(|x| fail == Some(x.pos) && nth(&mut a, x.pos).fails);
    match bad {
        Some(i) => {
            same!(r, Err(Fault(i as u64)), "hash with a failing element");
            same!(log, (0..=i).collect::<Vec<_>>(), "elements hashed");
        }
        None => {
            same!(r, Ok(()), "hash");
            same!(log, (0..n).collect::<Vec<_>>(), "elements hashed");
            // every element's contribution is there, in order
            let mut at = 0;
            for x in &flat {
                let want = (0xABCD_0000_0000_0000 | x.tag << 16 | x.pos as u64).to_ne_bytes();
                match t.0[at..].windows(8).position(|w| w == want) {
                    Some(p) => at += p + 8,
                    None => return Err(format!("element {} is not in the hash, or not in order", x.pos)),
                }
            }
        }
    }
    if fail.is_some() || differ.is_some() {
        cx.nontrivial();
    }
    Ok(())
}

static PROPS: &[Prop] = &[Prop {
    id: "C17",
    rule: "pairs of values of every implementing type, with their reference, option and sequence forms, and nested sequences whose elements fail or differ at chosen places, with a hasher that records its input; non-trivial: every pair of values, and every sequence with a failing or differing element",
    assumptions: &["Rust's own equality of primitives and strings", "rustc and the operating system"],
    level: "exploration",
    suites: &[
        Suite { name: "builtin", cases: 10_000_000, run: builtin },
        Suite { name: "sequences", cases: 10_000_000, run: sequences },
    ],
    known: &[],
}];

fn main() {
    pbt::main(PROPS)
}
