//! Random numbers against the reference generator.
#![allow(dead_code, unused)]
use pbt::*;

include!("world_num.rs");
include!("world_ary.rs");

pub mod globals {
    pub use super::Store;
    #[path = "/repo/monoruby/src/globals/prng.rs"]
    pub mod prng;
}
use globals::prng::Prng;

mod lists {
    use super::value::*;
    use super::*;
    use monoruby_attr::monoruby_object;
    #[path = "/repo/monoruby/src/value/rvalue/array.rs"]
    pub mod array;
    pub use array::*;
}

/// Entropy that is the same in every run.
pub mod getrandom {
    pub fn fill(buf: &mut [u8]) -> std::result::Result<(), &'static str> {
        for (i, b) in buf.iter_mut().enumerate() {
            *b = (i as u8).wrapping_mul(91) ^ 0xa7;
        }
        Ok(())
    }
}

mod builtins {
    use super::*;
    pub mod random {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/random.rs"));
    }
    pub mod kernel {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/kernel_rand.rs"));
    }
    pub mod array {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/array_random.rs"));
    }
}
use builtins::{array, kernel, random};

// ---- what surrounds them ------------------------------------------------------------------------

thread_local! {
    static GLOBAL: RefCell<Prng> = RefCell::new(Prng::new());
    static SEED: std::cell::Cell<Value> = std::cell::Cell::new(Value::integer(0));
    static IVARS: RefCell<HashMap<(u64, IdentId), Value>> = RefCell::new(HashMap::new());
    /// The class itself.
    static CLASS: std::cell::Cell<Value> = std::cell::Cell::new(Value::nil());
    /// What an object that is no Random does when asked for a number.
    static DUCK: RefCell<Option<Box<dyn FnMut(&Executor, i64) -> Value>>> = const { RefCell::new(None) };
}

impl Store {
    pub fn get_ivar(&self, v: Value, name: IdentId) -> Option<Value> {
        IVARS.with(|m| m.borrow().get(&(v.id(), name)).copied())
    }
    pub fn set_ivar(&mut self, v: Value, name: IdentId, val: Value) -> Result<()> {
        IVARS.with(|m| m.borrow_mut().insert((v.id(), name), val));
        Ok(())
    }
}

impl Globals {
    pub fn random_seed_value(&self) -> Value {
        SEED.get()
    }
    pub fn random_init_with(&mut self, seed: Value) {
        GLOBAL.with(|g| g.borrow_mut().seed_value(seed));
        SEED.set(seed);
    }
    pub fn random_init(&mut self, seed: Option<i64>) {
        match seed {
            Some(s) => self.random_init_with(Value::integer(s)),
            None => SEED.set(Value::integer(GLOBAL.with(|g| g.borrow_mut().seed_entropy()))),
        }
    }
    pub fn random_float(&mut self) -> f64 {
        GLOBAL.with(|g| g.borrow_mut().next_real())
    }
    pub fn random_float_inclusive(&mut self) -> f64 {
        GLOBAL.with(|g| g.borrow_mut().next_real_inclusive())
    }
    pub fn random_ulong_limited(&mut self, max: u64) -> u64 {
        GLOBAL.with(|g| g.borrow_mut().ulong_limited(max))
    }
    pub fn random_rand_int(&mut self, max: &BigInt) -> Value {
        GLOBAL.with(|g| g.borrow_mut().rand_int(max))
    }
    pub fn random_fill_bytes(&mut self, dest: &mut [u8]) {
        GLOBAL.with(|g| g.borrow_mut().fill_bytes(dest))
    }
}

pub struct ModuleRef(ClassId);
impl ModuleRef {
    pub fn id(&self) -> ClassId {
        self.0
    }
}

impl Value {
    pub fn is_class(&self) -> Option<ModuleRef> {
        (self.id() == CLASS.get().id()).then_some(ModuleRef(RANDOM_CLASS))
    }
    pub fn bytes(b: Vec<u8>) -> Value {
        Value::string_from_inner(RStringInner::from_encoding(&b, Encoding::UsAscii))
    }
}

impl Executor {
    pub fn get_qualified_constant(&mut self, _: &mut Globals, _: ClassId, path: &[&str]) -> Result<Value> {
        assert_eq!(path, ["Random"]);
        Ok(CLASS.get())
    }
    pub fn invoke_method_inner_vis(
        &mut self,
        globals: &mut Globals,
        name: IdentId,
        recv: Value,
        args: &[Value],
        a: Option<()>,
        b: Option<()>,
        _: bool,
    ) -> Result<Value> {
        self.invoke_method_inner(globals, name, recv, args, a, b)
    }
}

pub fn dispatch(vm: &mut Executor, _: &mut Globals, name: &str, recv: Value, args: &[Value]) -> Option<Result<Value>> {
    let is_duck = matches!(recv.cell(), Some(Cell::Object(n)) if n >> 8 != RANDOMS);
    match name {
        "rand" if is_duck => {
            if PROBING.get() {
                return Some(Ok(Value::nil()));
            }
            let max = args[0].try_fixnum().unwrap();
            DUCK.with(|d| d.borrow_mut().as_mut().map(|f| Ok(f(vm, max))))
        }
        "to_int" if recv.is_integer() => Some(Ok(recv)),
        "to_int" if recv.is_float() => Some(Ok(Value::integer(recv.try_float().unwrap() as i64))),
        _ => None,
    }
}

// ---- the reference ------------------------------------------------------------------------------

/// The Mersenne Twister as published by its authors, one word at a time.
#[derive(Clone)]
struct Twister {
    state: std::collections::VecDeque<u32>,
}

impl Twister {
    fn seeded(s: u32) -> Twister {
        let mut state = std::collections::VecDeque::from([s]);
        for i in 1..624u32 {
            let x = *state.back().unwrap();
            state.push_back((x ^ x >> 30).wrapping_mul(1812433253).wrapping_add(i));
        }
        Twister { state }
    }
    fn by_array(key: &[u32]) -> Twister {
        let t = Twister::seeded(19650218);
        let mut x: Vec<u32> = t.state.into();
        let mut i = 1;
        let mut step = |x: &mut Vec<u32>, i: &mut usize, mul: u32, add: u32| {
            let p = x[*i - 1];
            x[*i] = (x[*i] ^ (p ^ p >> 30).wrapping_mul(mul)).wrapping_add(add);
            *i += 1;
            if *i == 624 {
                x[0] = x[623];
                *i = 1;
            }
        };
        for k in 0..key.len().max(624) {
            let j = k % key.len();
            step(&mut x, &mut i, 1664525, key[j].wrapping_add(j as u32));
        }
        for _ in 0..623 {
            let sub = (i as u32).wrapping_neg();
            step(&mut x, &mut i, 1566083941, sub);
        }
        x[0] = 1 << 31;
        Twister { state: x.into() }
    }
    fn of(seed: &BigInt) -> Twister {
        let words = seed.to_u32_digits().1;
        match words.as_slice() {
            [] => Twister::seeded(0),
            [w] => Twister::seeded(*w),
            w => Twister::by_array(w),
        }
    }
    /// Each word follows from three of those 624 before it.
    fn word(&mut self) -> u32 {
        let y = self.state[0] & 0x80000000 | self.state[1] & 0x7fffffff;
        let mut new = self.state[397] ^ y >> 1;
        if y % 2 == 1 {
            new ^= 0x9908b0df;
        }
        self.state.pop_front();
        self.state.push_back(new);
        let mut y = new;
        y ^= y >> 11;
        y ^= y << 7 & 0x9d2c5680;
        y ^= y << 15 & 0xefc60000;
        y ^ y >> 18
    }
    fn real(&mut self) -> f64 {
        let (a, b) = ((self.word() >> 5) as u64, (self.word() >> 6) as u64);
        (a << 26 | b) as f64 / (1u64 << 53) as f64
    }
    /// Both ends included.
    fn real_closed(&mut self) -> f64 {
        let (a, b) = (self.word() as u64, self.word() as u64);
        let wide = BigInt::from(a << 32 | b) * ((1u64 << 53) + 1);
        (wide >> 64u32).to_f64().unwrap() / (1u64 << 53) as f64
    }
    /// From 0 up to the limit: words from the most significant on, each but the first in full width,
    /// all anew once they exceed the limit.
    fn upto(&mut self, limit: &BigInt) -> BigInt {
        let words = limit.to_u32_digits().1;
        'again: loop {
            let mut got = BigInt::from(0);
            let mut top = true;
            let mut below = false;
            for w in words.iter().rev() {
                let mask = if top { u32::MAX >> w.leading_zeros() } else { u32::MAX };
                top = false;
                let r = self.word() & mask;
                if !below && r > *w {
                    continue 'again;
                }
                below |= r < *w;
                got = (got << 32u32) + r;
            }
            return got;
        }
    }
    fn index(&mut self, n: usize) -> usize {
        self.upto(&BigInt::from(n - 1)).to_usize().unwrap()
    }
    fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut out: Vec<u8> = (0..n.div_ceil(4)).flat_map(|_| self.word().to_le_bytes()).collect();
        out.truncate(n);
        out
    }
    fn shuffle(&mut self, v: &mut [i64]) {
        for i in (1..v.len()).rev() {
            let j = self.index(i + 1);
            v.swap(i, j);
        }
    }
    /// Few are drawn one after another from those left in order; many as the start of a shuffle.
    fn sample(&mut self, v: &[i64], n: usize) -> Vec<i64> {
        let n = n.min(v.len());
        let mut left = v.to_vec();
        let draws: Vec<usize> = (0..n).map(|i| self.index(v.len() - i)).collect();
        if n <= 10 {
            return draws.iter().map(|&r| left.remove(r)).collect();
        }
        for (i, r) in draws.iter().enumerate() {
            left.swap(i, i + r);
        }
        left.truncate(n);
        left
    }
}

fn in_range(f: f64, s: f64, e: f64) -> f64 {
    if (e - s).is_finite() {
        s + f * (e - s)
    } else {
        (f - 0.5) * (e / 2.0 - s / 2.0) * 2.0 + (e / 2.0 + s / 2.0)
    }
}

// ---- generation ---------------------------------------------------------------------------------

fn big(src: &mut Src, bits: usize) -> BigInt {
    let n = src.usize(bits + 1) as u32;
    let mut x = BigInt::from(1) << n;
    match src.below(4) {
        0 => x -= 1,
        1 => x += src.below(3),
        2 => {
            for _ in 0..n / 32 {
                x = (x << 32u32) + src.u64() as u32;
            }
            x = x % (BigInt::from(1) << (n + 1));
        }
        _ => {}
    }
    x
}

fn gen_seed(src: &mut Src) -> BigInt {
    let s = match src.weighted(&[3, 2, 1]) {
        0 => BigInt::from(src.below(1000)),
        1 => big(src, 70),
        _ => big(src, 30000),
    };
    if src.chance(1, 4) { -s } else { s }
}

fn fixnum(src: &mut Src) -> i64 {
    const TOP: i64 = (1 << 62) - 1;
    match src.below(5) {
        0 => src.range(0, 40) as i64 - 20,
        1 => src.u64() as i32 as i64,
        2 => TOP - src.below(3) as i64,
        3 => -TOP - 1 + src.below(3) as i64,
        _ => (src.u64() as i64) >> (2 + src.below(40)),
    }
}

fn float(src: &mut Src) -> f64 {
    match src.below(5) {
        0 => src.range(0, 40) as f64 - 20.0,
        1 => src.range(0, 4000) as f64 / 16.0 - 125.0,
        2 => f64::MAX * if src.bool() { 1.0 } else { -1.0 } / (1 + src.below(4)) as f64,
        3 => f64::MIN_POSITIVE * src.below(5) as f64,
        _ => {
            let f = f64::from_bits(src.u64());
            if f.is_finite() { f } else { 0.5 }
        }
    }
}

#[derive(PartialEq, Debug)]
enum Got {
    Nil,
    Int(BigInt),
    Float(u64),
    Bytes(Vec<u8>),
    List(Vec<i64>),
    Refused,
}

fn got(r: Result<Value>) -> Got {
    let Ok(v) = r else { return Got::Refused };
    match v.unpack() {
        RV::Nil => Got::Nil,
        RV::Fixnum(i) => Got::Int(i.into()),
        RV::BigInt(b) => Got::Int(b.clone()),
        RV::Float(f) => Got::Float(f.to_bits()),
        RV::String(s) => Got::Bytes(s.as_bytes().to_vec()),
        _ => Got::List(v.as_array().iter().map(|v| element(*v).unwrap()).collect()),
    }
}

fn reset() {
    sweep_world();
    IVARS.with(|m| m.borrow_mut().clear());
    DUCK.with(|d| *d.borrow_mut() = None);
    CLASS.set(hold(Value::object(1)));
    SEED.set(Value::integer(0));
    GLOBAL.with(|g| *g.borrow_mut() = Prng::new());
}

/// Elements are objects of the heap.
fn list(v: &[i64]) -> Value {
    hold(Value::array_from_vec(v.iter().map(|i| Value::bigint((BigInt::from(1) << 70u32) + *i)).collect()))
}

fn element(v: Value) -> Option<i64> {
    match v.unpack() {
        RV::BigInt(b) => (b.clone() - (BigInt::from(1) << 70u32)).to_i64(),
        _ => None,
    }
}

/// A stream of mixed draws from the default generator or from an instance.
fn streams(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let seed = gen_seed(src);
    let mut model = Twister::of(&seed);
    let seed_val = hold(Value::bigint(seed.clone()));
    let inst = src.bool();
    note!(cx, "{} seeded with {seed}", if inst { "Random.new" } else { "srand" });
    let recv = hold(Value::object(RANDOMS << 8 | 1));
    if inst {
        call(random::random_init_m, recv, &[seed_val]).unwrap();
    } else {
        call(random::random_srand, CLASS.get(), &[seed_val]).unwrap();
    }
    let mut words = 0;
    let n = 1 + src.len(11);
    for _ in 0..n {
        let before = model.clone();
        let op = src.below(9);
        let arg: Option<Value>;
        let (what, got, want): (String, Got, Got) = match op {
            0 => {
                let f = if inst { random::rand } else if src.bool() { kernel::rand } else { random::random_rand };
                ("rand".into(), got(run(|| call(f, recv, &[]))?), Got::Float(model.real().to_bits()))
            }
            1 | 2 => {
                let max = if op == 1 { BigInt::from(fixnum(src)) } else { big(src, 200) * if src.chance(1, 5) { -1 } else { 1 } };
                let v = Value::bigint(max.clone());
                let class_side = !inst && src.bool();
                let f = if inst { random::rand } else if class_side { random::random_rand } else { kernel::rand };
                let zero = max == BigInt::from(0);
                let want = if (inst || class_side) && max <= BigInt::from(0) {
                    Got::Refused
                } else if zero {
                    Got::Float(model.real().to_bits())
                } else {
                    let limit = BigInt::from(max.magnitude().clone()) - 1;
                    let r = model.upto(&limit);
                    ensure!(r >= BigInt::from(0) && r <= limit, "the reference left its range");
                    Got::Int(r)
                };
                (format!("rand({max})"), got(run(|| call(f, recv, &[v]))?), want)
            }
            3 => {
                let (s, e, excl) = (fixnum(src), fixnum(src), src.bool());
                let (s, e) = if src.chance(4, 5) { (s.min(e), s.max(e)) } else { (s, e) };
                let r = Value::range(Value::integer(s), Value::integer(e), excl);
                let span = BigInt::from(e) - s - excl as i64;
                let want = if span < BigInt::from(0) { Got::Nil } else { Got::Int(model.upto(&span) + s) };
                let f = if inst { random::rand } else { kernel::rand };
                let dots = if excl { "..." } else { ".." };
                (format!("rand({s}{dots}{e})"), got(run(|| call(f, recv, &[r]))?), want)
            }
            4 => {
                let (s, e, excl) = (float(src), float(src), src.bool());
                let (s, e) = (s.min(e), s.max(e));
                if s == e {
                    continue;
                }
                let r = Value::range(Value::float(s), Value::float(e), excl);
                let d = if excl { model.real() } else { model.real_closed() };
                let want = in_range(d, s, e);
                ensure!(want.is_finite(), "the reference left the numbers");
                let f = if inst { random::rand } else { kernel::rand };
                let dots = if excl { "..." } else { ".." };
                (format!("rand({s:?}{dots}{e:?})"), got(run(|| call(f, recv, &[r]))?), Got::Float(want.to_bits()))
            }
            5 => {
                // a Float as the upper bound, of which only Kernel#rand takes the whole part
                let max = float(src);
                let v = Value::float(max);
                let class_side = !inst && src.bool();
                if inst || class_side {
                    let want = if max < 0.0 {
                        Got::Refused
                    } else {
                        let f = model.real();
                        Got::Float(if max == 0.0 { f } else { f * max }.to_bits())
                    };
                    let f = if inst { random::rand } else { random::random_rand };
                    (format!("rand({max:?})"), got(run(|| call(f, recv, &[v]))?), want)
                } else {
                    if max.abs() >= 1e18 {
                        continue;
                    }
                    let whole = max.trunc() as i64;
                    let want = if whole == 0 {
                        Got::Float(model.real().to_bits())
                    } else {
                        Got::Int(model.upto(&BigInt::from(whole.abs() - 1)))
                    };
                    (format!("Kernel#rand({max:?})"), got(run(|| call(kernel::rand, recv, &[v]))?), want)
                }
            }
            6 => {
                let n = src.usize(40);
                let half = src.chance(1, 5);
                let v = if half { Value::float(n as f64 + 0.75) } else { Value::integer(n as i64) };
                let f = if inst { random::instance_bytes } else { random::random_bytes };
                (format!("bytes({n}{})", if half { ".75" } else { "" }), got(run(|| call(f, recv, &[v]))?), Got::Bytes(model.bytes(n)))
            }
            7 => {
                let mut v: Vec<i64> = (0..src.len(40) as i64).collect();
                let a = list(&v);
                let in_place = src.bool();
                let r = (inst || src.chance(1, 3)).then(|| if inst { recv } else { CLASS.get() });
                let f = if in_place { array::shuffle_ } else { array::shuffle };
                let res = run(|| call_opt(f, a, vec![r]))?;
                let what = format!("shuffle of {}", v.len());
                let old = v.clone();
                model.shuffle(&mut v);
                same!(got(Ok(a)), Got::List(if in_place { v.clone() } else { old }), "the receiver after {what}");
                (what, got(res), Got::List(v))
            }
            _ => {
                let len = match src.below(4) {
                    0 => src.usize(6),
                    1 => src.usize(30),
                    2 => src.usize(300),
                    _ => src.pick(&[2559, 2560, 2561, 5119, 5120, 3000, 10239, 10240]),
                };
                let v: Vec<i64> = (0..len as i64).collect();
                let a = list(&v);
                let r = (inst || src.chance(1, 3)).then(|| if inst { recv } else { CLASS.get() });
                let n = src.chance(5, 6).then(|| match src.below(3) {
                    0 => src.usize(13),
                    1 => src.usize(80),
                    _ => src.usize(len + 3),
                });
                let res = run(|| call_opt(array::sample, a, vec![n.map(|n| Value::integer(n as i64)), r]))?;
                let want = match n {
                    None if len == 0 => Got::Nil,
                    None if len == 1 => Got::Int(BigInt::from(1) << 70u32),
                    None => Got::Int((BigInt::from(1) << 70u32) + model.index(len)),
                    Some(n) => Got::List(model.sample(&v, n)),
                };
                same!(got(Ok(a)), Got::List(v), "the receiver after sample");
                (format!("sample({n:?}) of {len}"), got(res), want)
            }
        };
        let _ = before;
        words += 1;
        same!(got, want, "{what}");
        note!(cx, "{what}");
    }
    // what follows is where the stream stands
    let f = if inst { random::rand } else { kernel::rand };
    same!(got(run(|| call(f, recv, &[]))?), Got::Float(model.real().to_bits()), "rand after all that");
    if inst {
        same!(got(call(random::inst_seed, recv, &[])), Got::Int(seed.clone()), "seed");
    } else {
        same!(got(call(random::random_srand, CLASS.get(), &[Value::integer(3)])), Got::Int(seed.clone()), "what srand says of the seed before");
    }
    if words >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

/// Two instances are equal when the same is to come from both.
fn twins(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let seed = gen_seed(src);
    let (mut models, mut insts) = (vec![], vec![]);
    for k in 0..3u32 {
        let s = if k == 2 && src.bool() { -seed.clone() } else { seed.clone() };
        let recv = hold(Value::object(RANDOMS << 8 | k));
        let v = hold(Value::bigint(s.clone()));
        call(random::random_init_m, recv, &[v]).unwrap();
        models.push((Twister::of(&s), 0usize));
        insts.push(recv);
    }
    for _ in 0..src.len(12) {
        let k = src.usize(3);
        let n = 1 + src.usize(24);
        let v = Value::integer(n as i64);
        let (res, want) = match src.bool() {
            true => (run(|| call(random::instance_bytes, insts[k], &[v]))?, Got::Bytes(models[k].0.bytes(n))),
            false => (run(|| call(random::rand, insts[k], &[v]))?, Got::Int(models[k].0.index(n).into())),
        };
        same!(got(res), want, "draw of {n} from instance {k}");
    }
    let mut equal = 0;
    for a in 0..3 {
        for b in 0..3 {
            let is = got(call(random::inst_eq, insts[a], &[insts[b]]).map(|v| Value::integer(v.as_bool() as i64)));
            let to_come = models[a].0.state == models[b].0.state;
            same!(is, Got::Int((to_come as i64).into()), "instance {a} == instance {b}");
            equal += (to_come && a != b) as usize;
        }
    }
    if equal > 0 && equal < 6 {
        cx.nontrivial();
    }
    Ok(())
}

/// A generator of the program's own: what it says is used or refused, and it may change the array.
fn ducks(src: &mut Src, cx: &mut Cx) -> R {
    reset();
    let len = if src.chance(1, 6) { 2560 + src.usize(200) } else { src.usize(30) };
    let v: Vec<i64> = (0..len as i64).collect();
    let a = list(&v);
    let duck = hold(Value::object(7));
    let script: Vec<u64> = (0..64).map(|_| src.u64()).collect();
    let bad_at = src.chance(1, 3).then(|| src.usize(12));
    let cut_at = src.chance(1, 3).then(|| (src.usize(12), src.usize(len + 1)));
    let too_big = src.bool();
    let asked = std::rc::Rc::new(RefCell::new(vec![]));
    let log = asked.clone();
    let s2 = script.clone();
    DUCK.with(|d| {
        *d.borrow_mut() = Some(Box::new(move |vm, max| {
            let k = log.borrow().len();
            let r = (s2[k % 64] % max as u64) as i64;
            log.borrow_mut().push((max, r));
            if let Some((at, to)) = cut_at
                && at == k
            {
                let mut a = a.as_array();
                a.truncate(to);
                collect(vm);
            }
            if bad_at == Some(k) {
                return Value::integer(if too_big { max } else { -1 });
            }
            Value::integer(r)
        }))
    });
    let shuffle = src.bool();
    let n = src.usize(len.min(90) + 2);
    let res = if shuffle {
        run(|| call_opt(array::shuffle_, a, vec![Some(duck)]))?
    } else {
        run(|| call_opt(array::sample, a, vec![Some(Value::integer(n as i64)), Some(duck)]))?
    };
    let asked = asked.borrow();
    let was_bad = bad_at.is_some_and(|k| k < asked.len());
    let was_cut = cut_at.is_some_and(|(k, to)| k < asked.len() && to < len);
    note!(cx, "{} of {len}, {n}; asked {} times, bad {was_bad}, cut {was_cut}", if shuffle { "shuffle!" } else { "sample" }, asked.len());
    if was_bad {
        ensure!(res.is_err(), "a number outside the bounds was taken");
    } else if !was_cut {
        // each bound is one less than that before, and the draws decide everything
        for (k, (max, _)) in asked.iter().enumerate() {
            same!(*max, (len - k) as i64, "the bound of draw {k}");
        }
        let want = if shuffle {
            let mut v = v.clone();
            for (k, (_, r)) in asked.iter().enumerate() {
                v.swap(len - 1 - k, *r as usize);
            }
            v
        } else {
            let mut left = v.clone();
            if asked.len() <= 10 {
                asked.iter().map(|(_, r)| left.remove(*r as usize)).collect()
            } else {
                for (i, (_, r)) in asked.iter().enumerate() {
                    left.swap(i, i + *r as usize);
                }
                left.truncate(asked.len());
                left
            }
        };
        same!(got(res), Got::List(want), "the result");
    } else if shuffle {
        ensure!(res.is_err() || asked.len() < 2, "the array was cut while being shuffled, and nothing said");
    } else if let Ok(v) = res {
        // whatever is given was an element, none twice
        let mut l: Vec<i64> = v.as_array().iter().filter(|v| !v.is_nil()).map(|v| element(*v).unwrap()).collect();
        l.sort();
        let m = l.len();
        l.dedup();
        same!(l.len(), m, "an element was given twice");
        ensure!(l.iter().all(|i| *i >= 0 && *i < len as i64), "something that was no element");
    }
    if asked.len() > 1 {
        cx.nontrivial();
    }
    cx.label(if was_bad { "bad" } else if was_cut { "cut" } else { "plain" });
    Ok(())
}

fn run(f: impl FnOnce() -> Result<Value>) -> std::result::Result<Result<Value>, String> {
    pbt::catch(f).map_err(|e| format!("panicked: {e}"))
}

const C53: Prop = Prop {
    id: "C53",
    rule: "streams: at least two draws; twins: some instances equal and some not; ducks: asked more than once",
    assumptions: &[
        "the default generator's place in Globals and instance variables are stand-ins",
        "ranges of bignums, of infinite floats and of other objects are not generated",
    ],
    level: "exploration",
    suites: &[
        Suite { name: "streams", cases: 6_000, run: streams },
        Suite { name: "twins", cases: 3_000, run: twins },
        Suite { name: "ducks", cases: 30_000, run: ducks },
    ],
    known: &[],
};

fn main() {
    // the values published with the generator
    let mut t = Twister::seeded(5489);
    assert_eq!((t.word(), t.word()), (3499211612, 581869302));
    let mut t = Twister::by_array(&[0x123, 0x234, 0x345, 0x456]);
    assert_eq!((t.word(), t.word(), t.word()), (1067595299, 955945823, 477289528));
    pbt::main(&[C53]);
}
