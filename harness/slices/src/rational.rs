//! Fractions against exact arithmetic on their numerators and denominators.
#![allow(dead_code, unused)]
use pbt::*;

include!("world_num.rs");
mod lists {
    use super::*;
    include!("plain_array.rs");
}
include!("nums.rs");

mod builtins {
    use super::*;
    pub mod numeric {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/num_ops.rs"));
        pub const ADD: Method = add;
        pub const SUB: Method = sub;
        pub const MUL: Method = mul;
        pub const DIV: Method = div;
        pub mod float {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/float_half.rs"));
        }
        pub mod integer {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/int_cmp.rs"));
        }
        pub mod rational {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/rational.rs"));
        }
    }
}
use builtins::numeric as n;
use builtins::numeric::rational as r;
use std::cmp::Ordering::*;

fn method(name: &str) -> Option<Method> {
    Some(match name {
        "+" => r::add,
        "-" => r::sub,
        "*" => r::mul,
        "/" => r::div,
        "**" => r::pow,
        "==" => r::eq,
        "<=>" => r::cmp,
        _ => return None,
    })
}

/// `coerce` is written in Ruby; this is what it says.
pub fn dispatch(
    vm: &mut Executor,
    globals: &mut Globals,
    name: &str,
    recv: Value,
    args: &[Value],
) -> Option<Result<Value>> {
    let me = recv.try_rational()?;
    if name == "coerce" {
        return Some(Ok(match args[0].unpack() {
            RV::Fixnum(i) => Value::array2(Value::rational(i, 1), recv),
            RV::BigInt(b) => Value::array2(Value::rational(b.clone(), 1), recv),
            RV::Float(_) => Value::array2(args[0], Value::float(me.to_f())),
            _ => return None,
        }));
    }
    Some(call(method(name)?, recv, args))
}

/// A fraction in lowest terms.
#[derive(Clone, Debug, PartialEq)]
struct Q(BigInt, BigInt);
impl Q {
    fn new(n: BigInt, d: BigInt) -> Q {
        let g = n.gcd(&d);
        let g = if d.is_negative() { -g } else { g };
        Q(&n / &g, &d / &g)
    }
    fn whole(n: &BigInt) -> Q {
        Q(n.clone(), big(1))
    }
    fn out(&self) -> Out {
        Out::Rat(self.0.clone(), self.1.clone())
    }
    fn value(&self) -> Value {
        Value::rational(self.0.clone(), self.1.clone())
    }
    fn cmp(&self, o: &Q) -> std::cmp::Ordering {
        (&self.0 * &o.1).cmp(&(&o.0 * &self.1))
    }
}
impl std::fmt::Display for Q {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}/{}", self.0, self.1)
    }
}

fn gen_den(s: &mut Src) -> BigInt {
    let d = match s.weighted(&[3, 3, 3, 1]) {
        0 => big(s.range(1, 12) as i128),
        1 => BigInt::from(2).pow(s.below(6) as u32) * BigInt::from(5).pow(s.below(6) as u32),
        2 => big(2) * pow10(s.below(8) as u32),
        _ => gen_int(s).abs(),
    };
    if d.is_zero() { big(1) } else { d }
}

fn gen_rat(s: &mut Src) -> Q {
    let (mut n, d) = (gen_int(s), gen_den(s));
    if s.chance(1, 4) {
        n = n * &d + big(s.below(3) as i128 - 1);
    }
    Q::new(n, d)
}

/// What stands on the other side.
enum Other {
    Rat(Q),
    Int(BigInt),
    Float(f64),
}
impl Other {
    fn value(&self) -> Value {
        match self {
            Other::Rat(q) => q.value(),
            Other::Int(n) => int(n),
            Other::Float(f) => Value::float(*f),
        }
    }
}
impl std::fmt::Display for Other {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Other::Rat(q) => write!(f, "({q})"),
            Other::Int(n) => write!(f, "{n}"),
            Other::Float(x) => write!(f, "{x:?}"),
        }
    }
}

fn calculate(op: &str, a: &Q, b: &Q) -> Out {
    match op {
        "+" => Q::new(&a.0 * &b.1 + &b.0 * &a.1, &a.1 * &b.1),
        "-" => Q::new(&a.0 * &b.1 - &b.0 * &a.1, &a.1 * &b.1),
        "*" => Q::new(&a.0 * &b.0, &a.1 * &b.1),
        _ if b.0.is_zero() => return Out::Err(Kind::ZeroDivision),
        _ => Q::new(&a.0 * &b.1, &a.1 * &b.0),
    }
    .out()
}

fn arith(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_rat(s);
    let (op, m, on_int): (&str, Method, Method) =
        s.pick(&[("+", r::add as Method, n::ADD), ("-", r::sub, n::SUB), ("*", r::mul, n::MUL), ("/", r::div, n::DIV)]);
    let b = match s.weighted(&[5, 3, 1]) {
        0 => Other::Rat(match s.below(4) {
            // Denominators that share factors, or that cancel.
            0 => Q::new(gen_int(s), a.1.clone()),
            1 if !a.0.is_zero() => Q::new(a.1.clone(), a.0.clone()),
            _ => gen_rat(s),
        }),
        1 => Other::Int(gen_int(s)),
        _ => Other::Float(gen_float(s)),
    };
    note!(cx, "({a}) {op} {b}");
    let got = answer(call(m, a.value(), &[b.value()]));
    match &b {
        Other::Float(f) => {
            let x = quotient(&a.0, &a.1);
            let calc = |x: f64| match op {
                "+" => x + f,
                "-" => x - f,
                "*" => x * f,
                _ => x / f,
            };
            let Out::Float(g) = got else { fail!("({a}) {op} {f:?}: {got:?}") };
            // The fraction may be off by a step or two once it is a float.
            let near = (-2..=2).any(|k| {
                let w = calc(nudge(x, k));
                w == g || (w.is_nan() && g.is_nan())
            });
            ensure!(near || x.is_infinite() || x.abs() > 1e300, "({a}) {op} {f:?}: {g:?}, should be {:?}", calc(x));
        }
        Other::Rat(q) => {
            let want = calculate(op, &a, q);
            ensure!(got == want, "({a}) {op} ({q}): {got:?}, should be {want:?}");
            if let Out::Rat(_, d) = &want {
                if *d != &a.1 * &q.1 {
                    cx.nontrivial();
                }
            }
        }
        Other::Int(i) => {
            let want = calculate(op, &a, &Q::whole(i));
            ensure!(got == want, "({a}) {op} {i}: {got:?}, should be {want:?}");
            // The integer on the left.
            let got = answer(call(on_int, int(i), &[a.value()]));
            let want = calculate(op, &Q::whole(i), &a);
            ensure!(got == want, "{i} {op} ({a}): {got:?}, should be {want:?}");
            if a.1 != big(1) {
                cx.nontrivial();
            }
        }
    }
    Ok(())
}

fn compare(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_rat(s);
    let b = match s.weighted(&[2, 2, 3, 2]) {
        0 => Other::Rat(gen_rat(s)),
        // One in the last place away.
        1 => Other::Rat(Q::new(&a.0 * &big(7) + big(s.below(3) as i128 - 1), &a.1 * &big(7))),
        2 => Other::Int(if s.bool() { floor_div(&a.0, &a.1) + big(s.below(2) as i128) } else { gen_int(s) }),
        _ => {
            let x = quotient(&a.0, &a.1);
            Other::Float(if s.bool() && x.is_finite() { nudge(x, s.below(9) as i64 - 4) } else { gen_float(s) })
        }
    };
    note!(cx, "({a}) <=> {b}");
    let (va, vb) = (a.value(), b.value());
    let cmp = answer(call(r::cmp, va, &[vb]));
    let eq = answer(call(r::eq, va, &[vb]));
    let ne = answer(call(r::ne, va, &[vb]));
    let eql = answer(call(r::eql_, va, &[vb]));
    let o = match &b {
        Other::Rat(q) => Some(a.cmp(q)),
        Other::Int(n) => Some(a.cmp(&Q::whole(n))),
        Other::Float(f) if f.is_nan() => None,
        Other::Float(f) if f.is_infinite() => Some(if *f > 0.0 { Less } else { Greater }),
        Other::Float(f) => {
            let (n, d) = ratio(*f);
            Some(a.cmp(&Q::new(n, d)))
        }
    };
    let want = |o: Option<std::cmp::Ordering>| o.map_or(Out::Nil, |o| Out::Int(big(o as i128)));
    // Next to a float the fraction may be turned into one first.
    let close = match &b {
        Other::Float(f) if f.is_finite() => {
            let x = quotient(&a.0, &a.1);
            x.is_infinite() || (-2..=2).any(|k| nudge(x, k) == *f)
        }
        _ => false,
    };
    if close {
        ensure!(matches!(cmp, Out::Int(_)), "({a}) <=> {b}: {cmp:?}");
    } else {
        ensure!(cmp == want(o), "({a}) <=> {b}: {cmp:?}, should be {:?}", want(o));
        ensure!(eq == Out::Bool(o == Some(Equal)), "({a}) == {b}: {eq:?}");
    }
    // The three always agree.
    let is_zero = cmp == Out::Int(big(0));
    ensure!(eq == Out::Bool(is_zero), "({a}) == {b}: {eq:?} but <=> {cmp:?}");
    ensure!(ne == Out::Bool(!is_zero), "({a}) != {b}: {ne:?} but <=> {cmp:?}");
    let same = matches!(&b, Other::Rat(q) if *q == a);
    ensure!(eql == Out::Bool(same), "({a}).eql?({b}): {eql:?}");
    if same {
        let (h1, h2) = (answer(call(r::hash, va, &[])), answer(call(r::hash, vb, &[])));
        ensure!(h1 == h2, "({a}).hash: {h1:?} and {h2:?}");
    }
    if let Other::Int(n) = &b {
        // The integer on the left.
        let got = answer(call(builtins::numeric::integer::cmp, vb, &[va]));
        ensure!(got == want(o.map(|o| o.reverse())), "{n} <=> ({a}): {got:?}");
    }
    if o == Some(Equal) || close || matches!(b, Other::Rat(_)) && a.1 != big(1) {
        cx.nontrivial();
    }
    if o == Some(Equal) {
        cx.label("equal");
    }
    Ok(())
}

fn rounding(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let nd = match s.weighted(&[3, 4, 4]) {
        0 => 0i64,
        1 => s.range(1, 14) as i64,
        _ => -(s.range(1, 14) as i64),
    };
    // The step that is kept.
    let (up, down) = if nd >= 0 { (pow10(nd as u32), big(1)) } else { (big(1), pow10(-nd as u32)) };
    let q = match s.weighted(&[2, 3]) {
        0 => gen_rat(s),
        // A whole number of half steps, or a little beside it.
        _ => {
            let k = gen_int(s);
            let k = if s.bool() { k } else { big(s.below(60) as i128 - 30) };
            let h = Q::new(&k * &down, &up * &big(2));
            match s.below(4) {
                0 => {
                    let d = gen_den(s) * big(1000);
                    Q::new(&h.0 * &d + big(s.below(3) as i128 - 1), &h.1 * &d)
                }
                _ => h,
            }
        }
    };
    note!(cx, "({q}) to {nd} digits");
    let (num, den) = (&q.0 * &up, &q.1 * &down);
    let lo = floor_div(&num, &den);
    let whole = &lo * &den == num;
    let hi = if whole { lo.clone() } else { &lo + &big(1) };
    let neg = q.0.is_negative();
    let (toward, away) = if neg { (hi.clone(), lo.clone()) } else { (lo.clone(), hi.clone()) };
    if !whole {
        cx.nontrivial();
    }
    let out = |k: &BigInt| if nd > 0 { rat(k.clone(), up.clone()) } else { Out::Int(k * &down) };
    let v = q.value();
    let d = if nd == 0 && s.bool() { None } else { Some(Value::integer(nd)) };
    for (what, m, want) in [("floor", r::rat_floor as Method, &lo), ("ceil", r::rat_ceil, &hi), ("truncate", r::rat_truncate, &toward)] {
        let (got, want) = (answer(call_opt(m, v, vec![d])), out(want));
        ensure!(got == want, "({q}).{what}({nd}): {got:?}, should be {want:?}");
    }
    let twice = (&num - &(&toward * &den)).abs() * big(2);
    let even = if (&toward & &big(1)).is_zero() { &toward } else { &away };
    if twice == den {
        cx.label("half-way");
    }
    for (half, at_half) in [(None, &away), (Some("up"), &away), (Some("even"), even), (Some("down"), &toward)] {
        let want = match twice.cmp(&den) {
            Less => &toward,
            Greater => &away,
            Equal => at_half,
        };
        let h = half.map(|m| Value::symbol(IdentId::get_id(m)));
        let (got, want) = (answer(call_opt(r::rat_round, v, vec![d, h])), out(want));
        ensure!(got == want, "({q}).round({nd}, half: {half:?}): {got:?}, should be {want:?}");
    }
    Ok(())
}

fn power(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let q = match s.weighted(&[1, 3, 3]) {
        0 => Q::whole(&big(s.below(3) as i128 - 1)),
        1 => Q::new(big(s.below(41) as i128 - 20), big(s.range(1, 12) as i128)),
        _ => gen_rat(s),
    };
    let huge = s.chance(1, 6);
    let e = if huge { gen_int(s) } else { big(s.below(25) as i128 - 12) };
    note!(cx, "({q}) ** {e}");
    let unit = q.0.is_zero() || (q.1 == big(1) && q.0.abs() == big(1));
    // Otherwise an answer would not fit into memory.
    if e.abs() > big(40) && !unit && e.abs() < pow2(32) {
        return Ok(());
    }
    let odd = !(&e & &big(1)).is_zero();
    let small = || {
        let k = e.abs().to_i64().unwrap() as u32;
        let (n, d) = (q.0.pow(k), q.1.pow(k));
        if e.is_negative() { Q::new(d, n).out() } else { Q::new(n, d).out() }
    };
    let want = if e.is_zero() {
        Q::whole(&big(1)).out()
    } else if q.0.is_zero() {
        if e.is_negative() { Out::Err(Kind::ZeroDivision) } else { q.out() }
    } else if unit {
        if odd { q.out() } else { Q::whole(&big(1)).out() }
    } else if e.abs() > big(40) {
        Out::Err(Kind::Argument)
    } else {
        small()
    };
    for (how, arg) in [("an integer", int(&e)), ("a fraction", Q::whole(&e).value())] {
        let got = answer(call(r::pow, q.value(), &[arg]));
        ensure!(got == want, "({q}) ** {e} as {how}: {got:?}, should be {want:?}");
    }
    if !unit && !e.is_zero() {
        cx.nontrivial();
    }
    if huge {
        cx.label("huge exponent");
    }
    Ok(())
}

fn single(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    // Also fractions far beyond what floats hold.
    let q = if s.chance(1, 6) {
        let (a, b) = (s.below(1400) as u32, s.below(1400) as u32);
        Q::new((gen_int(s) << a) + big(1), (gen_den(s) << b) + big(1))
    } else {
        gen_rat(s)
    };
    note!(cx, "{q}");
    let v = q.value();
    let ask = |m: Method| answer(call(m, v, &[]));
    same!(ask(r::numerator), Out::Int(q.0.clone()), "({q}).numerator");
    same!(ask(r::denominator), Out::Int(q.1.clone()), "({q}).denominator");
    same!(ask(r::to_s), Out::Str(format!("{}/{}", q.0, q.1)), "({q}).to_s");
    same!(ask(r::inspect), Out::Str(format!("({}/{})", q.0, q.1)), "({q}).inspect");
    same!(ask(r::neg), Q(-&q.0, q.1.clone()).out(), "-({q})");
    same!(ask(r::abs), Q(q.0.abs(), q.1.clone()).out(), "({q}).abs");
    same!(ask(r::zero_), Out::Bool(q.0.is_zero()), "({q}).zero?");
    same!(ask(r::positive_), Out::Bool(q.0.is_positive()), "({q}).positive?");
    same!(ask(r::negative_), Out::Bool(q.0.is_negative()), "({q}).negative?");
    let cut = floor_div(&q.0.abs(), &q.1);
    same!(ask(r::to_i), Out::Int(if q.0.is_negative() { -cut } else { cut }), "({q}).to_i");
    // Not in lowest terms, or with the sign below.
    let k = big(s.range(1, 9) as i128 - 10);
    same!(read(Value::rational(&q.0 * &k, &q.1 * &k)), q.out(), "{}/{}", &q.0 * &k, &q.1 * &k);
    let Out::Float(x) = ask(r::to_f) else { fail!("({q}).to_f: {:?}", ask(r::to_f)) };
    let want = quotient(&q.0, &q.1);
    if q.0.bits() <= 53 && q.1.bits() <= 53 {
        ensure!(x == want, "({q}).to_f: {x:?}, should be {want:?}");
    } else if want.abs() < 2f64.powi(1022) && (want.abs() >= f64::MIN_POSITIVE || want == 0.0) {
        ensure!((-2..=2).any(|k| nudge(want, k) == x), "({q}).to_f: {x:?}, should be {want:?}");
        cx.label("beyond 53 bits");
        cx.nontrivial();
    }
    Ok(())
}

fn main() {
    pbt::main(&[Prop {
        id: "C47",
        rule: "common factors cancel, an integer meets a fraction that is not whole, both sides are equal or nearly so, rounding changes the value, or the parts do not fit a float",
        assumptions: &[
            "BigInt is a stand-in with the interface of the num crate, written for these checks",
            "methods are called directly with their arguments in place; coerce, which is written in Ruby, is a stand-in",
        ],
        level: "exploration",
        suites: &[
            Suite { name: "arith", cases: 200_000, run: arith },
            Suite { name: "compare", cases: 200_000, run: compare },
            Suite { name: "rounding", cases: 150_000, run: rounding },
            Suite { name: "power", cases: 60_000, run: power },
            Suite { name: "single", cases: 60_000, run: single },
        ],
        known: &[],
    }]);
}
