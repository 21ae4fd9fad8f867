//! C23: the sort, mounted as it is over stand-ins for the interpreter's types.

#![allow(dead_code, unused)]

use pbt::{Cx, Prop, R, Src, Suite, ensure, fail, note, same};
use std::cmp::Ordering;

mod op {
    use super::*;

    #[path = "/repo/monoruby/src/executor/op/sort.rs"]
    pub mod sort;

    pub type Result<T> = std::result::Result<T, MonorubyErr>;
}

pub mod num {
    pub mod bigint {
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub enum Sign {
            Minus,
            NoSign,
            Plus,
        }
        #[derive(Clone, Copy, PartialEq, Debug)]
        pub struct BigInt(pub Sign);
        impl BigInt {
            pub fn sign(&self) -> Sign {
                self.0
            }
        }
    }
}
use num::bigint::{BigInt, Sign};

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErr {
    Argument(String),
    Raised(u64),
}

impl MonorubyErr {
    pub fn argumenterr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Argument(msg.to_string())
    }
}

pub struct Store;

pub struct Globals {
    pub store: Store,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct IdentId(u32);

impl IdentId {
    pub const _CMP: IdentId = IdentId(17);
}

/// What a value is.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Nil,
    Int(i64),
    Big(Sign),
    Float(i32),
    /// An object: its number and its sort key.
    Obj(u32, i32),
}

/// A value, encoded in one word like the original.
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(transparent)]
pub struct Value(u64);

static BIGS: [BigInt; 3] = [BigInt(Sign::Minus), BigInt(Sign::NoSign), BigInt(Sign::Plus)];

pub enum RV<'a> {
    Nil,
    Integer(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Object(u32),
}

impl Value {
    fn new(k: Kind) -> Value {
        Value(match k {
            Kind::Nil => 4,
            Kind::Int(i) => (i as u64) << 1 | 1,
            Kind::Big(s) => (s as u64) << 8 | 2,
            Kind::Float(f) => (f as u32 as u64) << 8 | 6,
            Kind::Obj(id, key) => (id as u64) << 36 | (key as u32 as u64) << 4,
        })
    }
    fn kind(self) -> Kind {
        match self.0 {
            v if v & 1 == 1 => Kind::Int(v as i64 >> 1),
            4 => Kind::Nil,
            v if v & 0xf == 2 => {
                Kind::Big([Sign::Minus, Sign::NoSign, Sign::Plus][(v >> 8) as usize])
            }
            v if v & 0xf == 6 => Kind::Float((v >> 8) as u32 as i32),
            v => Kind::Obj((v >> 36) as u32, (v >> 4) as u32 as i32),
        }
    }
    pub fn integer(i: i64) -> Value {
        Value::new(Kind::Int(i))
    }
    pub fn is_nil(&self) -> bool {
        self.kind() == Kind::Nil
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.kind() {
            Kind::Int(i) => Some(i),
            _ => None,
        }
    }
    pub fn is_packed_value(&self) -> bool {
        matches!(self.kind(), Kind::Nil | Kind::Int(_))
    }
    pub fn unpack(&self) -> RV<'_> {
        match self.kind() {
            Kind::Nil => RV::Nil,
            Kind::Int(i) => RV::Integer(i),
            Kind::Big(s) => RV::BigInt(&BIGS[s as usize]),
            Kind::Float(f) => RV::Float(f as f64),
            Kind::Obj(id, _) => RV::Object(id),
        }
    }
    pub fn inspect(&self, _: &Store) -> String {
        match self.kind() {
            Kind::Nil => "nil".into(),
            Kind::Int(i) => i.to_string(),
            Kind::Big(s) => format!("big{}", s as u8),
            Kind::Float(f) => format!("{f}.0"),
            Kind::Obj(id, _) => format!("#<Object {id}>"),
        }
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        match self.kind() {
            Kind::Nil => "NilClass".into(),
            Kind::Int(_) | Kind::Big(_) => "Integer".into(),
            Kind::Float(_) => "Float".into(),
            Kind::Obj(id, _) => format!("Class{}", id % 5),
        }
    }
    pub fn coerce_to_int_i64(&self, _vm: &mut Executor, _: &mut Globals) -> op::Result<i64> {
        match self.kind() {
            Kind::Int(i) => Ok(i),
            Kind::Float(f) => Ok(f as i64),
            k => Err(MonorubyErr::Argument(format!("no implicit conversion of {k:?}"))),
        }
    }
}

/// How elements are compared.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Compare {
    Key,
    Reverse,
    /// Some keys count as equal.
    Coarse,
    Always(Ordering),
    /// Inconsistent: depends on the two elements in no order.
    Mixed(u64),
    /// Inconsistent: depends on the call.
    Fickle(u64),
}

impl Compare {
    fn consistent(self) -> bool {
        matches!(self, Compare::Key | Compare::Reverse | Compare::Coarse | Compare::Always(Ordering::Equal))
    }
    fn apply(self, a: (u32, i32), b: (u32, i32), call: u64) -> Ordering {
        let pick = |x: u64| {
            let h = (x ^ x >> 31).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
            [Ordering::Less, Ordering::Equal, Ordering::Greater][h as usize % 3]
        };
        match self {
            Compare::Key => a.1.cmp(&b.1),
            Compare::Reverse => b.1.cmp(&a.1),
            Compare::Coarse => (a.1 >> 2).cmp(&(b.1 >> 2)),
            Compare::Always(o) => o,
            Compare::Mixed(s) => pick(s ^ (a.0 as u64) << 20 ^ b.0 as u64),
            Compare::Fickle(s) => pick(s.wrapping_add(call.wrapping_mul(0x2545_f491_4f6c_dd1d))),
        }
    }
}

/// The interpreter: answers comparisons and watches what it could still reach at each.
pub struct Executor {
    compare: Compare,
    /// The comparison that fails.
    fail: Option<u64>,
    calls: u64,
    /// The array and the scratch space.
    vec: (*const Value, usize),
    buf: (*const Value, usize),
    /// How often to look, and the elements.
    every: u64,
    all: usize,
    bad: Option<String>,
    // for method calls on comparison results
    answer: op::Result<Value>,
    asked: Vec<(IdentId, Value, Vec<Value>)>,
}

impl Executor {
    fn new() -> Executor {
        Executor {
            compare: Compare::Key,
            fail: None,
            calls: 0,
            vec: (std::ptr::null(), 0),
            buf: (std::ptr::null(), 0),
            every: 1,
            all: 0,
            bad: None,
            answer: Ok(Value::integer(0)),
            asked: vec![],
        }
    }

    fn on_compare(&mut self, a: Value, b: Value) -> op::Result<Ordering> {
        self.calls += 1;
        let (Kind::Obj(ia, ka), Kind::Obj(ib, kb)) = (a.kind(), b.kind()) else {
            self.bad.get_or_insert(format!("comparison of {:?} with {:?}, which were never elements", a.kind(), b.kind()));
            return Ok(Ordering::Equal);
        };
        if self.calls % self.every == 0 {
            let mut seen = vec![false; self.all];
            let rest = [a, b];
            let (v, s) = unsafe {
                (
                    std::slice::from_raw_parts(self.vec.0, self.vec.1),
                    if self.buf.1 == 0 { &[][..] } else { std::slice::from_raw_parts(self.buf.0, self.buf.1) },
                )
            };
            for x in v.iter().chain(s).chain(&rest) {
                if let Kind::Obj(id, _) = x.kind()
                    && (id as usize) < self.all
                {
                    seen[id as usize] = true;
                }
            }
            if let Some(i) = seen.iter().position(|s| !s) {
                self.bad.get_or_insert(format!("element {i} is nowhere to be found during comparison {}", self.calls));
            }
        }
        if self.fail == Some(self.calls) {
            return Err(MonorubyErr::Raised(self.calls));
        }
        Ok(self.compare.apply((ia, ka), (ib, kb), self.calls))
    }

    pub fn compare_values(&mut self, _: &mut Globals, a: Value, b: Value) -> op::Result<Ordering> {
        self.on_compare(a, b)
    }

    pub fn invoke_method_inner(
        &mut self,
        _: &mut Globals,
        method: IdentId,
        receiver: Value,
        args: &[Value],
        _block: Option<()>,
        _kw: Option<()>,
    ) -> op::Result<Value> {
        self.asked.push((method, receiver, args.to_vec()));
        self.answer.clone()
    }
}

/// Keys in one of the shapes the run detection distinguishes.
fn keys(src: &mut Src) -> Vec<i32> {
    let n = match src.weighted(&[3, 4, 4, 1]) {
        0 => src.usize(23),
        1 => src.range(15, 60),
        2 => src.range(40, 200),
        _ => src.range(150, 900),
    };
    let top = src.pick(&[2, 5, 30, 1000]);
    let mut out = vec![];
    let shape = src.usize(4);
    if shape == 0 {
        while out.len() < n {
            out.push(src.usize(top) as i32);
        }
    }
    // pieces, each a run of some kind
    while out.len() < n {
        src.begin();
        let len = match src.usize(3) {
            0 => src.range(1, 4),
            1 => src.range(5, 14),
            _ => src.range(8, 120),
        }
        .min(n - out.len());
        let from = src.usize(top) as i32;
        let kind = src.usize(5);
        for i in 0..len as i32 {
            out.push(match kind {
                0 => from + i,
                1 => from - i,
                2 => from,
                3 => from + i / 3,
                _ => from ^ (i * 7 % 5),
            });
        }
        src.end();
    }
    out
}

fn sorting(src: &mut Src, cx: &mut Cx) -> R {
    let keys = keys(src);
    let n = keys.len();
    let compare = match src.weighted(&[6, 2, 2, 1, 2, 2]) {
        0 => Compare::Key,
        1 => Compare::Reverse,
        2 => Compare::Coarse,
        3 => Compare::Always(src.pick(&[Ordering::Less, Ordering::Equal, Ordering::Greater])),
        4 => Compare::Mixed(src.u64()),
        _ => Compare::Fickle(src.u64()),
    };
    let by = src.bool();
    let fail = if src.chance(1, 3) { Some(src.range(1, 1 + n * 3) as u64) } else { None };
    note!(cx, "{} of keys {keys:?} by {compare:?}, failing at {fail:?}", if by { "sort_by" } else { "sort" });

    let need = op::sort::merge_scratch_len(n);
    ensure!(need <= n, "{need} scratch slots for {n} elements");
    let guard = Value::new(Kind::Float(-77));
    const G: usize = 8;
    let elems: Vec<Value> = keys.iter().enumerate().map(|(i, &k)| Value::new(Kind::Obj(i as u32, k))).collect();
    let mut arr = vec![guard; n + 2 * G];
    arr[G..G + n].copy_from_slice(&elems);
    let mut scratch = vec![guard; need + 2 * G];
    scratch[G..G + need].fill(Value::new(Kind::Nil));

    let mut vm = Executor::new();
    vm.compare = compare;
    vm.fail = fail;
    vm.all = n;
    vm.every = if n < 64 { 1 } else { 1 + src.below(7) };
    let base = arr.as_mut_ptr();
    vm.vec = (unsafe { base.add(G) }, n);
    let buf = if need == 0 && src.bool() {
        std::ptr::null_mut()
    } else {
        unsafe { scratch.as_mut_ptr().add(G) }
    };
    vm.buf = (buf, need);
    let mut globals = Globals { store: Store };
    let slice = unsafe { std::slice::from_raw_parts_mut(base.add(G), n) };
    let got = if by {
        op::sort::sort_by(slice, buf, |a, b| vm.on_compare(a, b))
    } else {
        vm.sort(&mut globals, slice, buf)
    };
    if let Some(b) = vm.bad {
        fail!("{b}");
    }
    ensure!(arr[..G].iter().chain(&arr[G + n..]).all(|v| *v == guard), "the sort wrote outside the array");
    ensure!(scratch[..G].iter().chain(&scratch[G + need..]).all(|v| *v == guard), "the sort wrote outside the scratch space");
    let now = &arr[G..G + n];
    let mut ids: Vec<u64> = now.iter().map(|v| v.0).collect();
    ids.sort_unstable();
    let mut want: Vec<u64> = elems.iter().map(|v| v.0).collect();
    want.sort_unstable();
    ensure!(ids == want, "the array no longer holds the elements it held: {:?}", now.iter().map(|v| v.kind()).collect::<Vec<_>>());
    match fail {
        Some(f) if vm.calls >= f => {
            same!(got, Err(MonorubyErr::Raised(f)), "result of a sort whose comparison {f} failed");
            same!(vm.calls, f, "comparisons of a sort whose comparison {f} failed");
            cx.nontrivial();
            cx.label("failing comparison");
        }
        _ => {
            same!(got, Ok(()), "result of a sort");
            if compare.consistent() {
                let mut e = elems.clone();
                let key = |v: &Value| match v.kind() {
                    Kind::Obj(i, k) => (i, k),
                    _ => unreachable!(),
                };
                e.sort_by(|a, b| compare.apply(key(a), key(b), 0));
                if now != &e[..] {
                    fail!(
                        "sorted to {:?}, expected {:?}",
                        now.iter().map(key).collect::<Vec<_>>(),
                        e.iter().map(key).collect::<Vec<_>>()
                    );
                }
                if n > 20 {
                    cx.nontrivial();
                    cx.label("merged");
                }
            } else {
                cx.label("inconsistent comparator");
                if n > 20 {
                    cx.nontrivial();
                }
            }
        }
    }
    Ok(())
}

fn value(src: &mut Src) -> Value {
    Value::new(match src.usize(5) {
        0 => Kind::Nil,
        1 => Kind::Int(src.pick(&[0, 1, -1, 2, -7, 1 << 40, -(1 << 61)])),
        2 => Kind::Big(src.pick(&[Sign::Minus, Sign::NoSign, Sign::Plus])),
        3 => Kind::Float(src.usize(5) as i32 - 2),
        _ => Kind::Obj(src.usize(9) as u32, src.usize(3) as i32),
    })
}

fn answers(src: &mut Src, cx: &mut Cx) -> R {
    let mut vm = Executor::new();
    let mut globals = Globals { store: Store };
    let (res, lhs, rhs) = (value(src), value(src), value(src));
    vm.answer = if src.chance(1, 4) { Err(MonorubyErr::Raised(src.below(9))) } else { Ok(value(src)) };
    let answer = vm.answer.clone();
    note!(cx, "answer {:?} to {:?} <=> {:?}, {answer:?} when asked against zero", res.kind(), lhs.kind(), rhs.kind());
    let got = vm.cmpint(&mut globals, res, lhs, rhs);
    let refuse = |x: Value, y: Value| {
        let s = Store;
        let y = match y.kind() {
            Kind::Nil | Kind::Int(_) | Kind::Float(_) => y.inspect(&s),
            _ => y.get_real_class_name(&s),
        };
        Err(MonorubyErr::Argument(format!("comparison of {} with {y} failed", x.get_real_class_name(&s))))
    };
    let zero = Value::integer(0);
    let direct = match res.kind() {
        Kind::Nil => Some(refuse(lhs, rhs)),
        Kind::Int(i) => Some(Ok(i.cmp(&0))),
        Kind::Big(s) => Some(Ok((s as i32 - 1).cmp(&0))),
        _ => None,
    };
    if let Some(want) = direct {
        same!(got, want, "order read from {:?}", res.kind());
        same!(vm.asked.len(), 0, "methods called on {:?}", res.kind());
        return Ok(());
    }
    cx.nontrivial();
    same!(vm.asked, vec![(IdentId::_CMP, res, vec![zero])], "methods called on {:?}", res.kind());
    let want = match answer {
        Err(e) => Err(e),
        Ok(v) if v.is_nil() => refuse(res, zero),
        Ok(v) => v.coerce_to_int_i64(&mut Executor::new(), &mut globals).map(|i| i.cmp(&0)),
    };
    same!(got, want, "order read from {:?}", res.kind());
    Ok(())
}

static PROPS: &[Prop] = &[Prop {
    id: "C23",
    rule: "arrays built from ascending, descending, equal and mixed runs of up to 900 elements, sorted with consistent, inconsistent and failing comparators; and answers of a comparator read as an order; non-trivial: more than 20 elements, or a comparison fails, or the answer has to be asked against zero",
    assumptions: &["the stand-ins for Value, Executor and Globals behave like the originals in the members the sort uses", "rustc and the operating system"],
    level: "fault_enumeration",
    suites: &[
        Suite { name: "sorting", cases: 150_000, run: sorting },
        Suite { name: "answers", cases: 400_000, run: answers },
    ],
    known: &[],
}];

fn main() {
    pbt::main(PROPS)
}
