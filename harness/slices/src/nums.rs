// Numbers to try, and what a method may answer. Included after the world.

use num::{Integer as _, One as _, Signed as _};

pub fn big(n: i128) -> BigInt {
    BigInt::from(n)
}
pub fn pow2(n: u32) -> BigInt {
    BigInt::from(1) << n
}
pub fn pow10(n: u32) -> BigInt {
    BigInt::from(10).pow(n)
}

/// Fits the word a small integer is kept in.
pub fn is_small(n: &BigInt) -> bool {
    *n >= -pow2(62) && *n < pow2(62)
}

/// An integer, mostly near the places where its representation changes.
pub fn gen_int(s: &mut Src) -> BigInt {
    let n = match s.weighted(&[30, 20, 12, 12, 8, 6, 4]) {
        0 => big(s.below(41) as i128 - 20),
        1 => {
            let e = s.pick(&[31u32, 32, 53, 61, 62, 63, 64, 65, 127, 128]);
            pow2(e) + big(s.below(9) as i128 - 4)
        }
        2 => big((s.u64() >> s.below(64)) as i128),
        3 => {
            let e = s.below(140) as u32;
            pow2(e) + big(s.below(3) as i128 - 1)
        }
        4 => pow10(s.below(30) as u32) * big(s.range(1, 9) as i128) + big(s.below(3) as i128 - 1),
        5 => big(s.u64() as i128) * big(s.u64() as i128) + big((s.u64() >> s.below(64)) as i128),
        _ => {
            let mut n = big(1);
            for _ in 0..s.range(2, 6) {
                n = n * big((s.u64() >> s.below(60)) as i128) + big(s.below(5) as i128);
            }
            n
        }
    };
    if s.bool() { -n } else { n }
}

/// A finite float or one of the special ones.
pub fn gen_float(s: &mut Src) -> f64 {
    let f = match s.weighted(&[16, 14, 14, 12, 10, 6, 6, 4]) {
        0 => s.below(41) as f64 / s.pick(&[1.0, 2.0, 4.0, 8.0, 10.0, 3.0]),
        1 => {
            let f = gen_int(s).to_f64().unwrap().abs();
            nudge(f, s.below(5) as i64 - 2)
        }
        2 => (s.below(2_000_000) as f64) / 10f64.powi(s.below(9) as i32),
        3 => f64::from_bits(s.u64() & 0x7fff_ffff_ffff_ffff),
        4 => {
            let e = s.below(600) as i32 - 300;
            nudge(2f64.powi(e) * (1.0 + s.below(16) as f64 / 16.0), s.below(3) as i64 - 1)
        }
        5 => s.pick(&[0.0, 0.5, 1.5, 2.5, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 1e22, 1e23]),
        6 => s.pick(&[f64::INFINITY, f64::NAN]),
        _ => 0.0,
    };
    if s.bool() { -f } else { f }
}

/// The float some steps away.
pub fn nudge(f: f64, by: i64) -> f64 {
    if !f.is_finite() || f == 0.0 {
        return f;
    }
    let b = f.to_bits() as i64 + by;
    let r = f64::from_bits(b as u64);
    if r.is_finite() && (r < 0.0) == (f < 0.0) { r } else { f }
}

/// What was, or should be, answered.
#[derive(Clone, Debug)]
pub enum Out {
    Int(BigInt),
    Float(f64),
    Rat(BigInt, BigInt),
    Cplx(Box<Out>, Box<Out>),
    Bool(bool),
    Nil,
    Str(String),
    List(Vec<Out>),
    Err(Kind),
    /// Something no answer may be.
    Odd(String),
}

impl PartialEq for Out {
    fn eq(&self, other: &Out) -> bool {
        match (self, other) {
            (Out::Int(a), Out::Int(b)) => a == b,
            (Out::Float(a), Out::Float(b)) => (a.is_nan() && b.is_nan()) || a.to_bits() == b.to_bits(),
            (Out::Rat(a, b), Out::Rat(c, d)) => a == c && b == d,
            (Out::Cplx(a, b), Out::Cplx(c, d)) => a == c && b == d,
            (Out::Bool(a), Out::Bool(b)) => a == b,
            (Out::Nil, Out::Nil) => true,
            (Out::Str(a), Out::Str(b)) => a == b,
            (Out::List(a), Out::List(b)) => a == b,
            (Out::Err(a), Out::Err(b)) => a == b,
            _ => false,
        }
    }
}

/// Reads a value back; an integer must be kept as a small one exactly when it is small.
pub fn read(v: Value) -> Out {
    match v.unpack() {
        RV::Fixnum(i) if is_small(&big(i as i128)) => Out::Int(big(i as i128)),
        RV::BigInt(b) if !is_small(b) => Out::Int(b.clone()),
        RV::Fixnum(i) => Out::Odd(format!("{i} kept in a word")),
        RV::BigInt(b) => Out::Odd(format!("{b} kept on the heap")),
        RV::Float(f) => Out::Float(f),
        RV::Complex(c) => Out::Cplx(Box::new(read(c.re.get())), Box::new(read(c.im.get()))),
        RV::Rational(r) => Out::Rat(r.num().clone(), r.den().clone()),
        RV::Bool(b) => Out::Bool(b),
        RV::Nil => Out::Nil,
        RV::String(s) => Out::Str(s.text()),
        _ => match v.try_array_ty() {
            Some(a) => Out::List(a.iter().map(|v| read(*v)).collect()),
            None => Out::Odd("another object".into()),
        },
    }
}

pub fn answer(r: Result<Value>) -> Out {
    match r {
        Ok(v) => read(v),
        Err(e) => Out::Err(e.kind),
    }
}

/// Makes a value the way the interpreter does for a literal.
pub fn int(n: &BigInt) -> Value {
    match n.to_i64() {
        Some(i) => Value::integer(i),
        None => Value::bigint(n.clone()),
    }
}

pub fn rat(n: BigInt, d: BigInt) -> Out {
    let g = n.gcd(&d);
    let (n, d) = (&n / &g, &d / &g);
    if d.is_negative() { Out::Rat(-n, -d) } else { Out::Rat(n, d) }
}

pub fn floor_div(a: &BigInt, b: &BigInt) -> BigInt {
    let q = a / b;
    let r = a - &(&q * b);
    if !r.is_zero() && (r.is_negative() != b.is_negative()) { q - BigInt::from(1) } else { q }
}

/// The integer a float stands for, exactly.
pub fn exact(f: f64) -> BigInt {
    let bits = f.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { bits & ((1 << 52) - 1) | 1 << 52 };
    let e = e - 1075;
    let n = if e >= 0 { big(m as i128) << e as u32 } else if e < -63 { big(0) } else { big((m >> -e) as i128) };
    if f < 0.0 { -n } else { n }
}

/// How an integer compares with a float, exactly; nothing for NaN.
pub fn int_vs_float(n: &BigInt, f: f64) -> Option<std::cmp::Ordering> {
    use std::cmp::Ordering::*;
    if f.is_nan() {
        return None;
    }
    if f.is_infinite() {
        return Some(if f > 0.0 { Less } else { Greater });
    }
    Some(match n.cmp(&exact(f.trunc())) {
        Equal => 0.0.partial_cmp(&(f - f.trunc())).unwrap(),
        o => o,
    })
}

pub type BinOp = extern "C" fn(&mut Executor, &mut Globals, Value, Value, bool) -> Option<Value>;

/// Applies an operator the way an instruction does.
pub fn apply(f: BinOp, a: Value, b: Value) -> Result<Value> {
    let mut vm = Executor::default();
    match f(&mut vm, &mut world(), a, b, false) {
        Some(v) => Ok(v),
        None => Err(vm.take_error()),
    }
}

/// A fraction, exactly, with its sign in the numerator.
pub fn ratio(x: f64) -> (BigInt, BigInt) {
    let (mut n, mut d, mut y) = (0, 0u32, x);
    let bits = x.to_bits();
    let e = ((bits >> 52) & 0x7ff) as i32;
    let m = if e == 0 { (bits & ((1 << 52) - 1)) << 1 } else { bits & ((1 << 52) - 1) | 1 << 52 };
    let e = e - 1075;
    let m = if x < 0.0 { -big(m as i128) } else { big(m as i128) };
    if e >= 0 { (m << e as u32, big(1)) } else { (m, pow2(-e as u32)) }
}

/// The float nearest to a fraction.
pub fn quotient(n: &BigInt, d: &BigInt) -> f64 {
    if n.is_zero() {
        return 0.0;
    }
    let neg = n.is_negative();
    let (n, d) = (n.abs(), d.abs());
    // Scale so that the whole part has 55 to 57 bits, or fewer for a subnormal result.
    let e = (n.bits() as i64 - d.bits() as i64 - 56).max(-1076);
    let (q, rest) = if e >= 0 {
        let d = &d << e as u32;
        let q = floor_div(&n, &d);
        let r = &n - &(&q * &d);
        (q, r)
    } else {
        let n = &n << (-e) as u32;
        let q = floor_div(&n, &d);
        let r = &n - &(&q * &d);
        (q, r)
    };
    let sticky = q.to_u64().unwrap() << 1 | !rest.is_zero() as u64;
    let f = scale(sticky, e - 1);
    if neg { -f } else { f }
}

/// m * 2^e rounded once.
pub fn scale(m: u64, e: i64) -> f64 {
    if m == 0 {
        return 0.0;
    }
    let w = 64 - m.leading_zeros() as i64;
    // Bits below the last one kept.
    let keep = 53.min(w + e + 1074);
    if keep < 0 {
        return 0.0;
    }
    let drop = w - keep;
    let (mut t, e) = if drop > 0 {
        let half = 1u64 << (drop - 1);
        let low = if drop == 64 { m } else { m & ((1u64 << drop) - 1) };
        let t = if drop >= 64 { 0 } else { m >> drop };
        let up = low > half || (low == half && t & 1 == 1);
        (t + up as u64, e + drop)
    } else {
        (m, e)
    };
    // Now exact unless too large.
    let mut f = t as f64;
    let mut e = e;
    while e > 500 {
        f *= 2f64.powi(500);
        e -= 500;
    }
    while e < -500 {
        // t has at most 53 bits and the result is representable, so no rounding happens here.
        f *= 2f64.powi(-500);
        e += 500;
    }
    f * 2f64.powi(e as i32)
}
