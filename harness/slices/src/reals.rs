//! Floats, and integers next to floats, against exact arithmetic.
#![allow(dead_code, unused)]
use pbt::*;

include!("world_num.rs");
mod lists {
    use super::*;
    include!("plain_array.rs");
}
include!("nums.rs");

mod builtins {
    use super::*;
    pub mod numeric {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/num_ops.rs"));
        pub const ADD: Method = add;
        pub const SUB: Method = sub;
        pub const MUL: Method = mul;
        pub const DIV: Method = div;
        pub const REM: Method = rem;
        pub const POW: Method = pow;
        pub const NEG: Method = neg;
        pub const DIVMOD: Method = divmod;
        pub mod integer {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/int_cmp.rs"));
            pub const GE: Method = ge;
            pub const GT: Method = gt;
            pub const LE: Method = le;
            pub const LT: Method = lt;
        }
        pub mod float {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/float_methods.rs"));
        }
    }
}
use builtins::numeric as n;
use builtins::numeric::float as f;
use builtins::numeric::integer as i;

pub fn dispatch(
    vm: &mut Executor,
    globals: &mut Globals,
    name: &str,
    recv: Value,
    args: &[Value],
) -> Option<Result<Value>> {
    None
}

/// An integer or a float.
#[derive(Clone, Debug)]
enum N {
    I(BigInt),
    F(f64),
}
impl N {
    fn value(&self) -> Value {
        match self {
            N::I(n) => int(n),
            N::F(f) => Value::float(*f),
        }
    }
    fn f(&self) -> f64 {
        match self {
            N::I(n) => nearest(n),
            N::F(f) => *f,
        }
    }
}
impl std::fmt::Display for N {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            N::I(n) => write!(f, "{n}"),
            N::F(x) => write!(f, "{x:?}"),
        }
    }
}

/// Two numbers at least one of which is a float, often close together.
fn gen_pair(s: &mut Src) -> (N, N) {
    let x = gen_float(s);
    let y = match s.weighted(&[4, 3, 2, 2]) {
        0 => N::I(gen_int(s)),
        1 if x.is_finite() => N::I(exact(x.trunc()) + big(s.below(5) as i128 - 2)),
        2 => N::F(nudge(x, s.below(3) as i64 - 1)),
        _ => N::F(gen_float(s)),
    };
    if s.bool() { (N::F(x), y) } else { (y, N::F(x)) }
}

fn compare(s: &mut Src, cx: &mut Cx) -> R {
    use std::cmp::Ordering::*;
    sweep_all();
    let (a, b) = gen_pair(s);
    note!(cx, "{a} against {b}");
    let o = match (&a, &b) {
        (N::I(a), N::F(b)) => int_vs_float(a, *b),
        (N::F(a), N::I(b)) => int_vs_float(b, *a).map(|o| o.reverse()),
        (N::F(a), N::F(b)) => a.partial_cmp(b),
        _ => unreachable!(),
    };
    if o != a.f().partial_cmp(&b.f()) {
        cx.label("only exact comparison tells them apart");
        cx.nontrivial();
    }
    if matches!((&a, &b), (N::I(_), _) | (_, N::I(_))) && o.is_some() {
        cx.nontrivial();
    }
    let is = |w: &[std::cmp::Ordering]| Out::Bool(o.is_some_and(|o| w.contains(&o)));
    let on_int = matches!(a, N::I(_));
    let m = |x: Method, y: Method| if on_int { x } else { y };
    let list: [(&str, Method, Option<BinOp>, Out); 8] = [
        ("==", m(i::eq, f::eq), Some(op::cmp_eq_values), is(&[Equal])),
        ("!=", m(i::ne, f::ne), None, Out::Bool(o != Some(Equal))),
        ("===", m(i::eq, f::eq), Some(op::cmp_teq_values), is(&[Equal])),
        ("<=>", m(i::cmp, f::cmp), None, o.map_or(Out::Nil, |o| Out::Int(big(o as i128)))),
        ("<", m(i::LT, f::lt), Some(op::cmp_lt_values), is(&[Less])),
        ("<=", m(i::LE, f::le), Some(op::cmp_le_values), is(&[Less, Equal])),
        (">", m(i::GT, f::gt), Some(op::cmp_gt_values), is(&[Greater])),
        (">=", m(i::GE, f::ge), Some(op::cmp_ge_values), is(&[Greater, Equal])),
    ];
    let (va, vb) = (a.value(), b.value());
    for (what, m, op, want) in list {
        let got = answer(call(m, va, &[vb]));
        ensure!(got == want, "{a} {what} {b}: {got:?}, should be {want:?}");
        if let Some(op) = op {
            let got = answer(apply(op, va, vb));
            ensure!(got == want, "{a} {what} {b} as an instruction: {got:?}, should be {want:?}");
        }
    }
    let (mut vm, mut g) = (Executor::default(), world());
    let ne = vm.ne_values_bool(&mut g, va, vb);
    ensure!(ne == Ok(o != Some(Equal)), "!= of {a} and {b} in the interpreter says {ne:?}");
    let teq = op::cmp_teq_values_bool(&mut vm, &mut g, va, vb);
    ensure!(teq == Ok(o == Some(Equal)), "=== of {a} and {b} in the interpreter says {teq:?}");
    if o.is_some() {
        let cmp = vm.compare_values_inner(&mut g, va, vb);
        ensure!(cmp == Ok(o), "sorting order of {a} and {b}: {cmp:?}, should be {o:?}");
    }
    // Numbers of two kinds are equal but are not the same key.
    let eql = answer(call(m(i::eql_, f::float_eql), va, &[vb]));
    let same = matches!((&a, &b), (N::F(_), N::F(_))) && o == Some(Equal);
    ensure!(eql == Out::Bool(same), "{a}.eql?({b}): {eql:?}");
    Ok(())
}

fn arith(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let (a, b) = gen_pair(s);
    note!(cx, "{a} with {b}");
    let (x, y) = (a.f(), b.f());
    if x.is_finite() && y.is_finite() && x != 0.0 && y != 0.0 {
        cx.nontrivial();
    }
    let (va, vb) = (a.value(), b.value());
    let zero_int = matches!(&b, N::I(n) if n.is_zero());
    let list: [(&str, Method, BinOp, Option<Out>); 4] = [
        ("+", n::ADD, op::add_values, Some(Out::Float(x + y))),
        ("-", n::SUB, op::sub_values, Some(Out::Float(x - y))),
        ("*", n::MUL, op::mul_values, Some(Out::Float(x * y))),
        ("/", n::DIV, op::div_values, Some(Out::Float(x / y))),
    ];
    for (what, m, op, want) in list {
        let Some(want) = want else { continue };
        let got = answer(call(m, va, &[vb]));
        ensure!(got == want, "{a} {what} {b}: {got:?}, should be {want:?}");
        let got = answer(apply(op, va, vb));
        ensure!(got == want, "{a} {what} {b} as an instruction: {got:?}, should be {want:?}");
    }
    // A power of a negative base with a fraction is complex, any other is a float.
    let got = answer(call(n::POW, va, &[vb]));
    let p = x.powf(y);
    if x < 0.0 && y.is_finite() && y != y.trunc() && x.is_finite() {
        ensure!(matches!(got, Out::Cplx(..)), "{a} ** {b}: {got:?}, should be complex");
    } else if !p.is_nan() {
        ensure!(got == Out::Float(p), "{a} ** {b}: {got:?}, should be {p:?}");
    }
    Ok(())
}

fn divmod(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let (a, b) = match s.weighted(&[2, 3]) {
        0 => gen_pair(s),
        // Multiples of decimal fractions, which divide almost evenly.
        _ => {
            let unit = s.pick(&[0.1, 0.2, 0.3, 0.7, 0.01, 1.1, 1e-3, 2.5, 3.0, 1e17, 1e-300]);
            let sign = if s.bool() { 1.0 } else { -1.0 };
            let sign2 = if s.bool() { 1.0 } else { -1.0 };
            let k = s.below(2000) as f64;
            (N::F(nudge(unit * k * sign, s.below(3) as i64 - 1)), N::F(unit * sign2))
        }
    };
    let (x, y) = (a.f(), b.f());
    note!(cx, "{a}.divmod({b})");
    let (va, vb) = (a.value(), b.value());
    let got = answer(call(n::DIVMOD, va, &[vb]));
    let rem = answer(call(n::REM, va, &[vb]));
    if x.is_nan() || y.is_nan() || x.is_infinite() {
        // 0 as a modulus and no number on the other side are both wrong.
        ensure!(matches!(got, Out::Err(Kind::FloatDomain | Kind::ZeroDivision)), "{a}.divmod({b}): {got:?}");
        cx.label("not finite");
        return Ok(());
    }
    if y == 0.0 {
        ensure!(got == Out::Err(Kind::ZeroDivision), "{a}.divmod({b}): {got:?}");
        return Ok(());
    }
    if (x / y).is_infinite() {
        ensure!(matches!(got, Out::Err(Kind::FloatDomain) | Out::List(_)), "{a}.divmod({b}): {got:?}");
        cx.label("quotient beyond floats");
        return Ok(());
    }
    cx.nontrivial();
    let Out::List(parts) = &got else { fail!("{a}.divmod({b}): {got:?}") };
    let [Out::Int(q), Out::Float(r)] = &parts[..] else { fail!("{a}.divmod({b}): {got:?}") };
    ensure!(rem == Out::Float(*r), "{a}.divmod({b}) leaves {r:?} but {a} % {b} is {rem:?}");
    if y.is_infinite() {
        let same = x == 0.0 || (x < 0.0) == (y < 0.0);
        let want = if same { x } else { y };
        ensure!(*r == want && *q == big(if same { 0 } else { -1 }), "{a}.divmod({b}): {got:?}");
        return Ok(());
    }
    // The quotient is the exact one rounded down; beyond 53 bits it may be rounded to a float.
    let ((xn, xd), (yn, yd)) = (ratio(x), ratio(y));
    let (num, den) = (&xn * &yd, &xd * &yn);
    let want = floor_div(&num, &den);
    let near = |q: &BigInt| {
        let off = (q - &want).abs();
        off.is_zero() || (want.bits() > 51 && off <= &floor_div(&want.abs(), &pow2(50)) + &big(1))
    };
    ensure!(near(q), "{a}.divmod({b}): quotient {q}, should be {want}");
    // The remainder is what the exact quotient leaves, rounded once.
    let left = &num - &(&want * &den);
    let scale = &xd * &yd;
    let exact_r = quotient(&(&left * &big(if den.is_negative() { -1 } else { 1 }) * &big(if scale.is_negative() { -1 } else { 1 })), &scale.abs());
    let signed = if den.is_negative() { -exact_r } else { exact_r };
    ensure!(
        signed == *r || (signed - r).abs() <= y.abs() * 1e-15,
        "{a}.divmod({b}): remainder {r:?}, should be {signed:?}"
    );
    ensure!(*r == 0.0 || (*r < 0.0) == (y < 0.0), "{a}.divmod({b}): remainder {r:?} has the wrong sign");
    if *r == 0.0 {
        cx.label("divides evenly");
    }
    Ok(())
}

/// The float nearest to an integer, the even one of two equally near.
fn nearest(n: &BigInt) -> f64 {
    quotient(n, &big(1))
}

fn to_integer(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let nd = if s.bool() { 0 } else { -((s.below(2) * s.below(27) + s.below(4)) as i64) };
    let unit = pow10(nd.unsigned_abs() as u32);
    let x = match s.weighted(&[3, 2]) {
        0 => gen_float(s),
        _ => {
            // Around the middle between two multiples.
            let k = s.below(200) as f64 + 0.5;
            let x = nudge(k * nearest(&unit), s.below(3) as i64 - 1);
            if s.bool() { -x } else { x }
        }
    };
    note!(cx, "{x:?} to {nd} digits");
    let v = Value::float(x);
    let d = if nd == 0 && s.bool() { None } else { Some(Value::integer(nd)) };
    let methods: [(&str, Method); 4] =
        [("floor", f::floor), ("ceil", f::ceil), ("truncate", f::truncate), ("round", f::round)];
    if !x.is_finite() {
        for (what, m) in methods {
            let got = answer(call_opt(m, v, vec![d, None]));
            ensure!(got == Out::Err(Kind::FloatDomain), "{x:?}.{what}({nd}): {got:?}");
        }
        let got = answer(call(f::toi, v, &[]));
        ensure!(got == Out::Err(Kind::FloatDomain), "{x:?}.to_i: {got:?}");
        return Ok(());
    }
    let (num, den) = ratio(x);
    let den = &den * &unit;
    let lo = floor_div(&num, &den);
    let exact_ = &lo * &den == num;
    let hi = if exact_ { lo.clone() } else { &lo + &big(1) };
    let (toward, away) = if x < 0.0 { (hi.clone(), lo.clone()) } else { (lo.clone(), hi.clone()) };
    if !exact_ && x.abs() >= 1.0 {
        cx.nontrivial();
    }
    let up = |n: &BigInt| Out::Int(n * &unit);
    for (what, m, want) in [("floor", f::floor as Method, &lo), ("ceil", f::ceil, &hi), ("truncate", f::truncate, &toward)] {
        let (got, want) = (answer(call_opt(m, v, vec![d])), up(want));
        ensure!(got == want, "{x:?}.{what}({nd}): {got:?}, should be {want:?}");
    }
    if nd == 0 {
        let (got, want) = (answer(call(f::toi, v, &[])), up(&toward));
        ensure!(got == want, "{x:?}.to_i: {got:?}, should be {want:?}");
    }
    let twice = (&num - &(&toward * &den)).abs() * big(2);
    let even = if (&toward & &big(1)).is_zero() { &toward } else { &away };
    for (half, at_half) in [(None, &away), (Some("up"), &away), (Some("even"), even), (Some("down"), &toward)] {
        let want = match twice.cmp(&den.abs()) {
            std::cmp::Ordering::Less => &toward,
            std::cmp::Ordering::Greater => &away,
            std::cmp::Ordering::Equal => at_half,
        };
        // With negative digits the fraction may be dropped before looking at the middle.
        let cut = floor_div(&num.abs(), &floor_div(&den, &unit));
        let dropped = nd < 0 && x != x.trunc() && (&(&cut - &(&toward.abs() * &unit)) * &big(2)) == unit;
        if dropped && half != None && half != Some("up") {
            continue;
        }
        if twice == den {
            cx.label("half-way");
        }
        let h = half.map(|m| Value::symbol(IdentId::get_id(m)));
        let got = answer(call_opt(f::round, v, vec![d, h]));
        ensure!(got == up(want), "{x:?}.round({nd}, half: {half:?}): {got:?}, should be {:?}", up(want));
    }
    Ok(())
}

/// The nearest float to k / 10^n.
fn decimal(k: &BigInt, n: u32) -> f64 {
    quotient(k, &pow10(n))
}

fn to_digits(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let n = s.range(1, 14) as u32;
    let x = match s.weighted(&[3, 3, 2, 1]) {
        0 => {
            // A short decimal.
            let k = s.below(1_000_000) as i128;
            decimal(&big(k), s.range(0, 6) as u32)
        }
        1 => {
            // The middle between two decimals of n digits.
            let k = s.below(100_000) as i128 * 10 + 5;
            nudge(decimal(&big(k), n + 1), s.below(3) as i64 - 1)
        }
        2 => (s.u64() >> 11) as f64 / 2f64.powi(53) * 10f64.powi(s.below(5) as i32),
        _ => s.below(4096) as f64 / 1024.0,
    };
    let x = if s.bool() { -x } else { x };
    // Close to the last digit a float can hold, scaling is allowed to slip.
    let scaled = x.abs() * 10f64.powi(n as i32);
    let n = if (2f64.powi(43)..2f64.powi(54)).contains(&scaled) { 1 } else { n };
    note!(cx, "{x:?} to {n} digits");
    let v = Value::float(x);
    let d = Some(Value::integer(n as i64));
    // The largest decimal of n digits, read as a float, that is not above x.
    let (num, den) = ratio(x);
    let mut k = floor_div(&(&num * &pow10(n)), &den);
    let one = big(1);
    while decimal(&(&k + &one), n) <= x {
        k = &k + &one;
    }
    let lo = decimal(&k, n);
    let mut j = k.clone();
    while decimal(&j, n) < x {
        j = &j + &one;
    }
    let hi = decimal(&j, n);
    if lo != x {
        cx.nontrivial();
    }
    let eq = |got: &Out, want: f64| matches!(got, Out::Float(g) if *g == want);
    for (what, m, want) in [
        ("floor", f::floor as Method, lo),
        ("ceil", f::ceil, hi),
        ("truncate", f::truncate, if x < 0.0 { hi } else { lo }),
    ] {
        let got = answer(call_opt(m, v, vec![d]));
        ensure!(eq(&got, want), "{x:?}.{what}({n}): {got:?}, should be {want:?}");
    }
    if lo == x {
        for half in [None, Some("up"), Some("even"), Some("down")] {
            let h = half.map(|m| Value::symbol(IdentId::get_id(m)));
            let got = answer(call_opt(f::round, v, vec![d, h]));
            ensure!(eq(&got, x), "{x:?}.round({n}, half: {half:?}): {got:?}, should be {x:?}");
        }
        return Ok(());
    }
    // Rounding: up from the middle, as the middle reads in decimal.
    let a = x.abs();
    let (an, _) = (num.abs(), 0);
    let below = floor_div(&(&an * &pow10(n)), &den);
    let mid = quotient(&(&below * &big(2) + &one), &(pow10(n) * big(2)));
    let exact_mid = (&an * &pow10(n) * big(2)) == (&below * &big(2) + &one) * &den;
    let want = if a >= mid { &below + &one } else { below.clone() };
    let sign = |k: &BigInt| if x < 0.0 { -decimal(k, n) } else { decimal(k, n) };
    let got = answer(call_opt(f::round, v, vec![d, None]));
    // A float just below the middle may count as the middle.
    let close = a < mid && nudge(a, 2) >= mid;
    ensure!(
        eq(&got, sign(&want)) || (close && eq(&got, sign(&(&want + &one)))),
        "{x:?}.round({n}): {got:?}, should be {:?}", sign(&want)
    );
    if a == mid {
        cx.label("reads as the middle");
    }
    // The other modes differ only at a middle that is one exactly.
    if exact_mid || (a != mid && !close) {
        let even = if (&below & &one).is_zero() { below.clone() } else { &below + &one };
        for (half, at_mid) in [("up", &below + &one), ("even", even), ("down", below.clone())] {
            let want = if exact_mid { &at_mid } else { &want };
            let h = Some(Value::symbol(IdentId::get_id(half)));
            let got = answer(call_opt(f::round, v, vec![d, h]));
            ensure!(eq(&got, sign(want)), "{x:?}.round({n}, half: {half}): {got:?}, should be {:?}", sign(want));
        }
    }
    Ok(())
}

fn text(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let x = gen_float(s);
    note!(cx, "{x:?}");
    let got = answer(call(f::float_to_s, Value::float(x), &[]));
    let Out::Str(got) = got else { fail!("{x:?}.to_s: {got:?}") };
    let want = written(x);
    ensure!(got == want, "{x:?}.to_s is {got}, should be {want}");
    if x.is_finite() {
        let back: f64 = got.parse().unwrap_or(f64::NAN);
        ensure!(back.to_bits() == x.to_bits(), "{x:?}.to_s is {got}, which reads as {back:?}");
        if got.len() > 4 {
            cx.nontrivial();
        }
        if got.contains('e') {
            cx.label("with an exponent");
        }
    }
    Ok(())
}

/// The shortest digits that read back, with an exponent outside 1e-4 ... 1e16.
fn written(x: f64) -> String {
    if x.is_nan() {
        return "NaN".into();
    }
    let sign = if x.is_sign_negative() { "-" } else { "" };
    if x.is_infinite() {
        return format!("{sign}Infinity");
    }
    if x == 0.0 {
        return format!("{sign}0.0");
    }
    let e = format!("{:e}", x.abs());
    let (m, e) = e.split_once('e').unwrap();
    let e: i32 = e.parse().unwrap();
    let digits: String = m.chars().filter(|c| *c != '.').collect();
    let len = digits.len() as i32;
    if (-4..16).contains(&e) {
        if e < 0 {
            format!("{sign}0.{}{digits}", "0".repeat((-e - 1) as usize))
        } else if len <= e + 1 {
            format!("{sign}{digits}{}.0", "0".repeat((e + 1 - len) as usize))
        } else {
            format!("{sign}{}.{}", &digits[..(e + 1) as usize], &digits[(e + 1) as usize..])
        }
    } else {
        let frac = if len > 1 { &digits[1..] } else { "0" };
        let es = if e < 0 { "-" } else { "+" };
        format!("{sign}{}.{frac}e{es}{:02}", &digits[..1], e.abs())
    }
}

fn single(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let x = gen_float(s);
    let v = Value::float(x);
    note!(cx, "{x:?}");
    if x.is_finite() && x != 0.0 {
        cx.nontrivial();
    }
    let inf = if x.is_infinite() { Out::Int(big(if x > 0.0 { 1 } else { -1 })) } else { Out::Nil };
    let step = |up: bool| {
        if x.is_nan() || (x.is_infinite() && (x > 0.0) == up) {
            x
        } else if x == 0.0 {
            if up { 5e-324 } else { -5e-324 }
        } else {
            let b = x.to_bits();
            f64::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 })
        }
    };
    let r = if x.is_finite() {
        let (n, d) = ratio(x);
        rat(n, d)
    } else {
        Out::Err(Kind::FloatDomain)
    };
    for (what, m, want) in [
        ("finite?", f::finite as Method, Out::Bool(x.is_finite())),
        ("infinite?", f::infinite, inf),
        ("nan?", f::nan, Out::Bool(x.is_nan())),
        ("abs", f::abs, Out::Float(x.abs())),
        ("-@", n::NEG, Out::Float(-x)),
        ("next_float", f::next_float, Out::Float(step(true))),
        ("prev_float", f::prev_float, Out::Float(step(false))),
        ("to_r", f::float_to_r, r),
    ] {
        let got = answer(call(m, v, &[]));
        ensure!(got == want, "{x:?}.{what}: {got:?}, should be {want:?}");
    }
    Ok(())
}

/// The fraction with the smallest denominator strictly between two others, all positive.
fn simplest(lo: (BigInt, BigInt), hi: (BigInt, BigInt)) -> (BigInt, BigInt) {
    let whole = floor_div(&lo.0, &lo.1);
    let next = &whole + &big(1);
    if &next * &hi.1 < hi.0 {
        return (next, big(1));
    }
    // Both lie in [whole, whole + 1].
    let lo2 = (&lo.0 - &(&whole * &lo.1), lo.1);
    let hi2 = (&hi.0 - &(&whole * &hi.1), hi.1);
    if lo2.0.is_zero() {
        // 0 < p/q < hi: q just above 1/hi.
        let q = floor_div(&hi2.1, &hi2.0) + big(1);
        return (&whole * &q + big(1), q);
    }
    let (n, d) = simplest((hi2.1, hi2.0), (lo2.1, lo2.0));
    (&whole * &n + &d, n)
}

fn rationalize(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let x = gen_float(s);
    let v = Value::float(x);
    if !x.is_finite() {
        let got = answer(call_opt(f::float_rationalize, v, vec![None]));
        ensure!(got == Out::Err(Kind::FloatDomain), "{x:?}.rationalize: {got:?}");
        return Ok(());
    }
    if x == 0.0 {
        let got = answer(call_opt(f::float_rationalize, v, vec![None]));
        ensure!(got == Out::Rat(big(0), big(1)), "{x:?}.rationalize: {got:?}");
        return Ok(());
    }
    let (num, den) = ratio(x.abs());
    // How far the answer may be away: half a step of the float, or what is asked for.
    let (eps, arg) = if s.chance(1, 3) {
        let e = x.abs() * s.pick(&[0.5, 0.1, 1e-3, 1e-9]);
        if e == 0.0 {
            return Ok(());
        }
        (ratio(e), Some(Value::float(e)))
    } else {
        let bits = x.abs().to_bits() >> 52 & 0x7ff;
        let e = (bits.max(1) as i64) - 1075 - 1;
        let eps = if e >= 0 { (pow2(e as u32), big(1)) } else { (big(1), pow2(-e as u32)) };
        (eps, None)
    };
    note!(cx, "{x:?}.rationalize{}", if arg.is_some() { format!("({}/{})", eps.0, eps.1) } else { String::new() });
    let got = answer(call_opt(f::float_rationalize, v, vec![arg]));
    let Out::Rat(n, d) = &got else { fail!("{x:?}.rationalize: {got:?}") };
    if arg.is_none() {
        let back = quotient(n, d);
        ensure!(back == x, "{x:?}.rationalize is {n}/{d}, which is {back:?} as a float");
    }
    let n = if x < 0.0 { -n } else { n.clone() };
    ensure!(n.is_positive() && d.is_positive(), "{x:?}.rationalize: {got:?}");
    let off = (&(&n * &den) - &(&num * d)).abs();
    ensure!(&off * &eps.1 <= &(&eps.0 * &den) * d, "{x:?}.rationalize is {n}/{d}, too far away");
    // Nothing simpler lies strictly inside.
    let lo = (&num * &eps.1 - &eps.0 * &den, &den * &eps.1);
    let hi = (&num * &eps.1 + &eps.0 * &den, &den * &eps.1);
    let whole = arg.is_none() && x == x.trunc() && x.abs() >= 2f64.powi(53);
    // Subnormal floats are taken to be as precise as normal ones.
    let subnormal = arg.is_none() && x.abs() < f64::MIN_POSITIVE;
    if !whole && !subnormal {
        cx.nontrivial();
        let (sn, sd) = simplest(lo, hi);
        ensure!(*d <= sd, "{x:?}.rationalize is {n}/{d}, though {sn}/{sd} is simpler");
    }
    Ok(())
}

fn main() {
    pbt::main(&[Prop {
        id: "C46",
        rule: "an integer meets a float that is a number, both operands are finite and not zero, rounding changes the value, or the text has more than one digit besides the zero",
        assumptions: &[
            "BigInt is a stand-in with the interface of the num crate, written for these checks",
            "methods are called directly with their arguments in place; generated machine code is not run",
        ],
        level: "exploration",
        suites: &[
            Suite { name: "compare", cases: 300_000, run: compare },
            Suite { name: "arith", cases: 200_000, run: arith },
            Suite { name: "divmod", cases: 60_000, run: divmod },
            Suite { name: "to_integer", cases: 100_000, run: to_integer },
            Suite { name: "to_digits", cases: 100_000, run: to_digits },
            Suite { name: "text", cases: 200_000, run: text },
            Suite { name: "single", cases: 150_000, run: single },
            Suite { name: "rationalize", cases: 3_000, run: rationalize },
        ],
        known: &[],
    }]);
}
