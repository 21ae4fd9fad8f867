//! Arrays against lists of elements.
#![allow(dead_code, unused)]
use pbt::*;

include!("world_num.rs");
include!("world_ary.rs");

pub mod globals {
    pub use super::Store;
}

mod lists {
    use super::value::*;
    use super::*;
    use monoruby_attr::monoruby_object;
    #[path = "/repo/monoruby/src/value/rvalue/array.rs"]
    pub mod array;
    pub use array::*;
    include!(concat!(env!("OUT_DIR"), "/coerce_ary.rs"));
}

mod builtins {
    use super::*;
    pub mod numeric {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/num_ops.rs"));
        pub const ADD: Method = add;
        pub mod float {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/float_methods.rs"));
        }
        pub mod integer {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/int_cmp.rs"));
        }
        pub mod rational {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/rational.rs"));
        }
    }
    pub mod array {
        use super::*;
        fn try_convert_to_array(v: &Value, vm: &mut Executor, _: &mut Globals) -> Result<Option<Array>> {
            if matches!(v.cell(), Some(Cell::Object(_))) {
                fire(vm);
            }
            Ok(v.try_array_ty())
        }
        include!(concat!(env!("OUT_DIR"), "/array.rs"));
    }
}
use builtins::array as a;
use builtins::numeric::{float as f, integer as i, rational as r};

// ---- elements -----------------------------------------------------------------------------------

/// An element as the reference sees it.
#[derive(Clone, PartialEq)]
enum M {
    N,
    B(bool),
    I(BigInt),
    F(f64),
    Q(i64, i64),
    S(String),
    A(Vec<M>),
    /// An object of a class of its own: its low byte is what it compares by.
    O(u32),
}
use M::*;

impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            N => write!(f, "nil"),
            B(b) => write!(f, "{b}"),
            I(i) => write!(f, "{i}"),
            F(x) => write!(f, "{x:?}"),
            Q(a, b) => write!(f, "({a}/{b})"),
            S(s) => write!(f, "{s:?}"),
            A(v) => write!(f, "{v:?}"),
            O(o) => write!(f, "o{}#{}", key(*o), o >> 8),
        }
    }
}

fn n(i: i64) -> M {
    I(BigInt::from(i))
}

fn build(m: &M) -> Value {
    match m {
        N => Value::nil(),
        B(b) => Value::bool(*b),
        I(i) => Value::bigint(i.clone()),
        F(f) => Value::float(*f),
        Q(a, b) => Value::rational(BigInt::from(*a), BigInt::from(*b)),
        S(s) => Value::string(s),
        A(v) => Value::array_from_vec(v.iter().map(build).collect()),
        O(n) => Value::object(*n),
    }
}

fn read(v: Value) -> M {
    match v.unpack() {
        RV::Nil => N,
        RV::Bool(b) => B(b),
        RV::Fixnum(i) => n(i),
        RV::BigInt(b) => I(b.clone()),
        RV::Float(f) => F(f),
        RV::Rational(_) => {
            let part = |f: Method| match call(f, v, &[]).unwrap().unpack() {
                RV::Fixnum(i) => i,
                _ => panic!("part of a rational"),
            };
            Q(part(r::numerator), part(r::denominator))
        }
        RV::String(s) => S(s.text()),
        _ => match v.cell() {
            Some(Cell::Array(a)) => A(a.iter().map(|v| read(*v)).collect()),
            Some(Cell::Object(n)) => O(*n),
            _ => panic!("an element that was never put in: {v:?}"),
        },
    }
}

/// Objects of this kind turn into an array, a new one each time.
const CONVERTS: u32 = 0xaaaa;

fn key(o: u32) -> i64 {
    (o & 0xff) as i64
}

fn num_parts(m: &M) -> Option<f64> {
    match m {
        I(i) => i.to_f64(),
        F(f) => Some(*f),
        Q(a, b) => Some(*a as f64 / *b as f64),
        _ => None,
    }
}

fn num_cmp(a: &M, b: &M) -> Option<std::cmp::Ordering> {
    let by_float = num_parts(a)?.partial_cmp(&num_parts(b)?)?;
    // Of large integers the float is not all there is.
    let whole = |m: &M| match m {
        I(i) => Some(i.clone()),
        F(f) if f.fract() == 0.0 => BigInt::from_f64(*f),
        _ => None,
    };
    match (by_float, whole(a), whole(b)) {
        (std::cmp::Ordering::Equal, Some(x), Some(y)) => Some(x.cmp(&y)),
        _ => Some(by_float),
    }
}

/// `==`
fn eq(a: &M, b: &M) -> bool {
    match (a, b) {
        (A(x), A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eq(a, b)),
        (O(x), O(y)) => key(*x) == key(*y),
        _ => num_cmp(a, b).map_or(a == b, |o| o.is_eq()),
    }
}

/// `eql?`
fn eql(a: &M, b: &M) -> bool {
    match (a, b) {
        (A(x), A(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| eql(a, b)),
        (O(x), O(y)) => key(*x) == key(*y),
        _ => a == b,
    }
}

/// `<=>`
fn cmp(a: &M, b: &M) -> Option<i64> {
    let sign = |o: std::cmp::Ordering| Some(o as i64);
    match (a, b) {
        (S(x), S(y)) => sign(x.cmp(y)),
        (O(x), O(y)) => Some(key(*x) - key(*y)),
        (A(x), A(y)) => {
            for (a, b) in x.iter().zip(y) {
                match cmp(a, b) {
                    Some(0) => {}
                    other => return other,
                }
            }
            sign(x.len().cmp(&y.len()))
        }
        _ => match num_cmp(a, b) {
            Some(o) => sign(o),
            None if a == b => Some(0),
            None => None,
        },
    }
}

fn text(m: &M) -> String {
    match m {
        N => String::new(),
        B(b) => b.to_string(),
        I(i) => i.to_string(),
        F(f) => format!("{f:?}"),
        S(s) => s.clone(),
        O(o) => format!("o{}", key(*o)),
        _ => unreachable!(),
    }
}

thread_local! {
    /// Run whenever an object is asked something.
    static HOOK: RefCell<Option<std::rc::Rc<RefCell<dyn FnMut(&mut Executor)>>>> = const { RefCell::new(None) };
}

fn fire(vm: &mut Executor) {
    let hook = HOOK.with(|h| h.borrow().clone());
    if let Some(hook) = hook {
        // Asked again from within itself, it has nothing to do.
        if let Ok(mut hook) = hook.try_borrow_mut() {
            hook(vm);
        }
    }
}

fn set_hook(f: Option<std::rc::Rc<RefCell<dyn FnMut(&mut Executor)>>>) {
    HOOK.with(|h| *h.borrow_mut() = f);
}

pub fn dispatch(
    vm: &mut Executor,
    globals: &mut Globals,
    name: &str,
    recv: Value,
    args: &[Value],
) -> Option<Result<Value>> {
    let probing = PROBING.get();
    // What objects have from Object.
    let name = if name == "===" { "==" } else { name };
    let opt = || args.iter().map(|v| Some(*v)).collect::<Vec<_>>();
    let ours = |f: Method, vm: &mut Executor| {
        Some(if probing { Ok(Value::nil()) } else { call_in(vm, f, recv, opt(), None) })
    };
    let arg = || args[0];
    match recv.cell() {
        Some(Cell::Object(o)) => {
            let as_list = o >> 8 == CONVERTS;
            if !matches!(name, "==" | "eql?" | "hash" | "<=>" | "to_s") && !(as_list && name == "to_ary") {
                return None;
            }
            if probing {
                return Some(Ok(Value::nil()));
            }
            fire(vm);
            let other = args.first().and_then(|v| match v.cell() {
                Some(Cell::Object(p)) => Some(key(*p)),
                _ => None,
            });
            return Some(Ok(match name {
                "to_ary" => Value::array_from_vec((0..8).map(|i| Value::object(*o & 0xff ^ i)).collect()),
                "==" | "eql?" => Value::bool(other == Some(key(*o))),
                // Some hashes meet, and some are too big for a word.
                "hash" if key(*o) % 3 == 0 => Value::bigint(BigInt::from(1u8) << 70),
                "hash" => Value::integer(key(*o) % 4),
                "<=>" => other.map_or(Value::nil(), |p| Value::integer(key(*o) - p)),
                _ => Value::string(format!("o{}", key(*o))),
            }));
        }
        Some(Cell::Array(_)) => match name {
            "==" => return ours(a::eq, vm),
            "eql?" => return ours(a::eql, vm),
            "hash" => return ours(a::hash, vm),
            "<=>" => return ours(a::cmp, vm),
            "+" => return ours(a::add, vm),
            _ => return None,
        },
        Some(Cell::Rational(_)) => match name {
            "==" => return ours(r::eq, vm),
            "eql?" => return ours(r::eql_, vm),
            "hash" => return ours(r::hash, vm),
            "<=>" => return ours(r::cmp, vm),
            "+" => return ours(r::add, vm),
            // Written in Ruby; this is what it says.
            "coerce" if !probing => {
                let me = recv.try_rational().unwrap();
                return Some(Ok(match arg().unpack() {
                    RV::Fixnum(i) => Value::array2(Value::rational(i, 1), recv),
                    RV::BigInt(b) => Value::array2(Value::rational(b.clone(), 1), recv),
                    RV::Float(_) => Value::array2(arg(), Value::float(me.to_f())),
                    _ => return None,
                }));
            }
            "coerce" => return Some(Ok(Value::nil())),
            _ => return None,
        },
        _ => {}
    }
    if probing {
        return matches!(name, "==" | "eql?" | "hash" | "<=>" | "to_s").then_some(Ok(Value::nil()));
    }
    if recv.is_integer() {
        match name {
            "+" => return ours(builtins::numeric::ADD, vm),
            "==" => return ours(i::eq, vm),
            "eql?" => return ours(i::eql_, vm),
            "<=>" => return ours(i::cmp, vm),
            "hash" => return ours(i::hash, vm),
            _ => {}
        }
    }
    if recv.is_float() {
        match name {
            "+" => return ours(builtins::numeric::ADD, vm),
            "==" => return ours(f::eq, vm),
            "eql?" => return ours(f::float_eql, vm),
            "<=>" => return ours(f::cmp, vm),
            "hash" => return ours(f::hash, vm),
            _ => {}
        }
    }
    Some(Ok(match name {
        "==" | "===" => Value::bool(eq(&read(recv), &read(arg()))),
        "eql?" => Value::bool(eql(&read(recv), &read(arg()))),
        "<=>" => cmp(&read(recv), &read(arg())).map_or(Value::nil(), Value::integer),
        "to_s" => Value::string(text(&read(recv))),
        "+" if recv.is_str().is_some() && arg().is_str().is_some() => {
            Value::string(format!("{}{}", recv.as_str(), arg().as_str()))
        }
        // Asked of numbers that met something that is no number.
        "coerce" => return None,
        _ => return None,
    }))
}

/// A call, any panic of which is the array's.
fn run(what: &str, f: impl FnOnce() -> Result<Value>) -> std::result::Result<Result<Value>, String> {
    match pbt::catch(f) {
        Ok(r) => Ok(r),
        Err(e) => Err(format!("{what} panicked: {e}")),
    }
}

include!("array_access.rs");
include!("array_algebra.rs");
include!("array_callbacks.rs");

fn main() {
    pbt::main(&[C49, C50, C51, C52]);
}
