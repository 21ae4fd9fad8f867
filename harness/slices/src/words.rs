//! Value words: what goes in comes out, no two things share a word, and `eql?` fits `hash`.
#![allow(dead_code, unused)]
use pbt::*;

include!("world_num.rs");
mod lists {
    use super::*;
    include!("plain_array.rs");
}
include!("nums.rs");

mod builtins {
    use super::*;
    pub mod numeric {
        use super::*;
        use paste::paste;
        pub mod float {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/float_methods.rs"));
        }
        pub mod integer {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/int_cmp.rs"));
        }
        pub mod rational {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/rational.rs"));
        }
    }
}
use builtins::numeric::{float as f, integer as i, rational as r};

pub fn dispatch(
    vm: &mut Executor,
    globals: &mut Globals,
    name: &str,
    recv: Value,
    args: &[Value],
) -> Option<Result<Value>> {
    if recv.try_rational().is_some() {
        match name {
            "eql?" => return Some(call(r::eql_, recv, args)),
            "hash" => return Some(call(r::hash, recv, args)),
            _ => {}
        }
    }
    if name == "eql?" {
        if recv.is_integer() {
            return Some(call(i::eql_, recv, args));
        }
        if recv.is_float() {
            return Some(call(f::float_eql, recv, args));
        }
        // Only asked about something that is no complex number.
        return Some(Ok(Value::bool(false)));
    }
    None
}

/// A thing to put into a word.
#[derive(Clone, Debug)]
enum Thing {
    Nil,
    Bool(bool),
    Sym(u32),
    Int(BigInt),
    Float(f64),
    Rat(BigInt, BigInt),
    Cplx(Box<Thing>, Box<Thing>),
}

impl Thing {
    fn value(&self) -> Value {
        match self {
            Thing::Nil => Value::nil(),
            Thing::Bool(b) => Value::bool(*b),
            Thing::Sym(n) => Value::symbol(symbol(*n)),
            Thing::Int(n) => int(n),
            Thing::Float(f) => Value::float(*f),
            Thing::Rat(n, d) => Value::rational(n.clone(), d.clone()),
            Thing::Cplx(a, b) => Value::complex(a.real(), b.real()),
        }
    }
    fn real(&self) -> Real {
        Real::try_from(&world().store, self.value()).unwrap()
    }
    /// The same class and the same value.
    fn same(&self, o: &Thing) -> bool {
        match (self, o) {
            (Thing::Nil, Thing::Nil) => true,
            (Thing::Bool(a), Thing::Bool(b)) => a == b,
            (Thing::Sym(a), Thing::Sym(b)) => a == b,
            (Thing::Int(a), Thing::Int(b)) => a == b,
            (Thing::Float(a), Thing::Float(b)) => a == b,
            (Thing::Rat(a, b), Thing::Rat(c, d)) => a == c && b == d,
            (Thing::Cplx(a, b), Thing::Cplx(c, d)) => a.same(c) && b.same(d),
            _ => false,
        }
    }
    /// A zero whose sign differs from the one in the other.
    fn zero_sign_differs(&self, o: &Thing) -> bool {
        match (self, o) {
            (Thing::Float(a), Thing::Float(b)) => *a == 0.0 && *b == 0.0 && a.to_bits() != b.to_bits(),
            (Thing::Cplx(a, b), Thing::Cplx(c, d)) => a.zero_sign_differs(c) || b.zero_sign_differs(d),
            _ => false,
        }
    }
}

/// Names that need not be interned for their identity to be usable.
fn symbol(n: u32) -> IdentId {
    IdentId::get_id(&format!("name{n}"))
}

fn gen_real(s: &mut Src) -> Thing {
    if s.bool() { Thing::Int(gen_int(s)) } else { Thing::Float(gen_bits(s)) }
}

/// Floats, mostly near the edges of what fits into a word.
fn gen_bits(s: &mut Src) -> f64 {
    match s.weighted(&[4, 4, 2]) {
        0 => gen_float(s),
        1 => {
            // Around a change of the topmost bits, which decide whether a float fits.
            let top = s.below(16) << 60;
            let f = f64::from_bits(top.wrapping_add(s.below(9)).wrapping_sub(4));
            if s.chance(1, 4) { f64::from_bits(f.to_bits() ^ (1 << s.below(64))) } else { f }
        }
        _ => f64::from_bits(s.u64()),
    }
}

fn gen_thing(s: &mut Src) -> Thing {
    match s.weighted(&[1, 1, 3, 8, 8, 2, 2]) {
        0 => Thing::Nil,
        1 => Thing::Bool(s.bool()),
        2 => Thing::Sym(s.below(40) as u32),
        3 => Thing::Int(gen_int(s)),
        4 => Thing::Float(gen_bits(s)),
        5 => {
            let d = big(s.range(2, 9) as i128);
            let n = gen_int(s) * &d + big(1);
            Thing::Rat(n, d)
        }
        _ => Thing::Cplx(Box::new(gen_real(s)), Box::new(gen_real(s))),
    }
}

/// Something close to it but of another kind or one step away.
fn gen_near(s: &mut Src, t: &Thing) -> Thing {
    match (t, s.below(3)) {
        (t, 0) => t.clone(),
        (Thing::Int(n), 1) if n.bits() < 1000 => Thing::Float(n.to_f64().unwrap()),
        (Thing::Int(n), _) => Thing::Int(n + &big(s.below(3) as i128 - 1)),
        (Thing::Float(x), 1) if x.is_finite() => Thing::Int(exact(x.trunc())),
        (Thing::Float(x), _) => Thing::Float(f64::from_bits(x.to_bits() ^ (1 << s.below(64)))),
        (Thing::Cplx(a, b), 1) => Thing::Cplx(a.clone(), Box::new(gen_near(s, b))),
        (Thing::Cplx(a, b), _) => Thing::Cplx(Box::new(gen_near(s, a)), b.clone()),
        (Thing::Rat(n, d), _) => Thing::Rat(n + d, d.clone()),
        _ => gen_thing(s),
    }
}

/// Reads the value as each kind in turn.
fn check_word(t: &Thing, v: Value) -> R {
    let (nil, fix, flo, sym) = (v.is_nil(), v.try_fixnum(), v.try_float(), v.try_symbol());
    let truthy = !matches!(t, Thing::Nil | Thing::Bool(false));
    ensure!(v.as_bool() == truthy, "{t:?} counts as {}", v.as_bool());
    ensure!(nil == matches!(t, Thing::Nil), "{t:?}: nil? is {nil}");
    match t {
        Thing::Int(n) if is_small(n) => ensure!(fix.map(|i| big(i as i128)).as_ref() == Some(n), "{t:?} read as {fix:?}"),
        _ => ensure!(fix.is_none(), "{t:?} read as the integer {fix:?}"),
    }
    match t {
        Thing::Float(x) => ensure!(flo.map(f64::to_bits) == Some(x.to_bits()), "{t:?} read as {flo:?}"),
        _ => ensure!(flo.is_none(), "{t:?} read as the float {flo:?}"),
    }
    match t {
        Thing::Sym(n) => ensure!(sym.is_some_and(|i| i == symbol(*n)), "{t:?} read as another symbol"),
        _ => ensure!(sym.is_none(), "{t:?} read as a symbol"),
    }
    ensure!(v.is_integer() == matches!(t, Thing::Int(_)), "{t:?}: is_integer is {}", v.is_integer());
    ensure!(v.is_float() == matches!(t, Thing::Float(_)), "{t:?}: is_float is {}", v.is_float());
    ensure!(v.try_rational().is_some() == matches!(t, Thing::Rat(..)), "{t:?}: try_rational");
    ensure!(v.try_complex().is_some() == matches!(t, Thing::Cplx(..)), "{t:?}: try_complex");
    let want = match t {
        Thing::Nil => Out::Nil,
        Thing::Bool(b) => Out::Bool(*b),
        Thing::Sym(_) => return Ok(()),
        Thing::Int(n) => Out::Int(n.clone()),
        Thing::Float(x) => {
            ensure!(matches!(v.unpack(), RV::Float(y) if y.to_bits() == x.to_bits()), "{t:?} unpacked as another float");
            Out::Float(*x)
        }
        Thing::Rat(n, d) => rat(n.clone(), d.clone()),
        Thing::Cplx(a, b) => Out::Cplx(Box::new(read(a.value())), Box::new(read(b.value()))),
    };
    let got = read(v);
    ensure!(got == want, "{t:?} unpacked as {got:?}");
    Ok(())
}

fn one(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let t = gen_thing(s);
    note!(cx, "{t:?}");
    let v = t.value();
    check_word(&t, v)?;
    check_word(&t, v.dup())?;
    check_word(&t, v.deep_copy())?;
    match &t {
        Thing::Int(n) => {
            cx.nontrivial();
            if let Some(u) = n.to_u64() {
                check_word(&t, Value::integer_from_u64(u))?;
            }
            check_word(&t, Value::bigint(n.clone()))?;
            if let Some(i) = n.to_i64() {
                ensure!(Value::check_fixnum(i).is_some() == is_small(n), "{n}: check_fixnum");
                ensure!(Immediate::check_fixnum(i).is_some() == is_small(n), "{n}: check_fixnum");
            }
        }
        Thing::Float(x) => {
            cx.nontrivial();
            let word = Value::flonum(*x);
            if let Some(w) = word {
                check_word(&t, w)?;
                cx.label("float in a word");
            }
            // The same float elsewhere is the same float.
            check_word(&t, Value::float_heap(*x))?;
            if x.is_finite() && *x == x.trunc() {
                let n = exact(*x);
                let Some(v) = Value::integer_from_f64(*x) else { fail!("{x:?} is no integer") };
                check_word(&Thing::Int(n), v)?;
            }
        }
        _ => {}
    }
    Ok(())
}

fn two(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_thing(s);
    let b = gen_near(s, &a);
    note!(cx, "{a:?} and {b:?}");
    let (va, vb) = (a.value(), b.value());
    let same = a.same(&b);
    // Words: everything that is not on the heap is the same exactly when it is the same word.
    if va.is_packed_value() && vb.is_packed_value() {
        ensure!((va.id() == vb.id()) == same, "{a:?} and {b:?} have the words {:#x} and {:#x}", va.id(), vb.id());
    } else {
        ensure!(va.id() != vb.id(), "{a:?} and {b:?} share a word");
    }
    // The known exception: zero with a sign is not found under zero.
    if a.zero_sign_differs(&b) {
        cx.label("zeros of both signs");
        return Ok(());
    }
    let (mut vm, mut g) = (Executor::default(), world());
    for (x, y) in [(va, vb), (vb, va)] {
        match RubyEql::eql(&x, &y, &mut vm, &mut g) {
            Ok(got) => ensure!(got == same, "{a:?} eql {b:?}: {got}"),
            Err(e) => fail!("{a:?} eql {b:?}: {:?}", e.kind),
        }
    }
    let hash = |v: Value| v.calculate_hash(&mut Executor::default(), &mut world()).ok();
    if same && !matches!(a, Thing::Cplx(..)) {
        ensure!(hash(va) == hash(vb), "{a:?} and {b:?} are eql but have different digests");
        ensure!(hash(va).is_some(), "{a:?} has no digest");
    }
    // The methods agree with that.
    let (eql, h): (Method, Method) = match &a {
        Thing::Int(_) => (i::eql_, i::hash),
        Thing::Float(_) => (f::float_eql, f::hash),
        Thing::Rat(..) => (r::eql_, r::hash),
        _ => return Ok(()),
    };
    let got = answer(call(eql, va, &[vb]));
    ensure!(got == Out::Bool(same), "{a:?}.eql?({b:?}): {got:?}");
    if same {
        let (x, y) = (answer(call(h, va, &[])), answer(call(h, vb, &[])));
        ensure!(x == y && matches!(x, Out::Int(_)), "{a:?}.hash: {x:?} and {y:?}");
    }
    cx.nontrivial();
    if same {
        cx.label("eql");
    }
    Ok(())
}

/// `0.0.eql?(-0.0)` but a hash does not find one under the other.
fn zeros() -> std::result::Result<bool, String> {
    let (a, b) = (Value::float(0.0), Value::float(-0.0));
    let eql = answer(call(f::float_eql, a, &[b])) == Out::Bool(true);
    let key = RubyEql::eql(&a, &b, &mut Executor::default(), &mut world()).unwrap_or(true);
    Ok(eql && !key)
}

fn main() {
    pbt::main(&[Prop {
        id: "C48",
        rule: "a number goes in and comes out, or two numbers are compared of which one was derived from the other",
        assumptions: &[
            "heap objects are a stand-in; packing, unpacking, eql? and digests are the real code",
            "generated machine code, which packs floats itself, is not run",
        ],
        level: "exploration",
        suites: &[
            Suite { name: "one", cases: 12_000_000, run: one },
            Suite { name: "two", cases: 12_000_000, run: two },
        ],
        known: &[("signed-zero", zeros)],
    }]);
}
