//! Integer arithmetic, against exact arithmetic.
#![allow(dead_code, unused)]
use pbt::*;

include!("world_num.rs");
mod lists {
    use super::*;
    include!("plain_array.rs");
}
include!("nums.rs");

mod builtins {
    use super::*;
    pub mod numeric {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/num_ops.rs"));
        pub const ADD: Method = add;
        pub const SUB: Method = sub;
        pub const MUL: Method = mul;
        pub const DIV: Method = div;
        pub const NEG: Method = neg;
        pub const BITNOT: Method = bitnot;
        pub const DIVMOD: Method = divmod;
        pub const POS: Method = pos;
        pub mod integer {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/integer.rs"));
            pub const BITAND: Method = bitand;
            pub const BITOR: Method = bitor;
            pub const BITXOR: Method = bitxor;
            pub const GE: Method = ge;
            pub const GT: Method = gt;
            pub const LE: Method = le;
            pub const LT: Method = lt;
        }
        pub mod float {
            use super::*;
            include!(concat!(env!("OUT_DIR"), "/float_half.rs"));
        }
    }
}
use builtins::numeric as n;
use builtins::numeric::integer as i;

pub fn dispatch(
    vm: &mut Executor,
    globals: &mut Globals,
    name: &str,
    recv: Value,
    args: &[Value],
) -> Option<Result<Value>> {
    match (name, recv.unpack()) {
        ("**", RV::Fixnum(_) | RV::BigInt(_)) => Some(call(i::int_pow, recv, args)),
        _ => None,
    }
}

/// Runs a method and, when there is one, the instruction of the same meaning.
fn both(what: &str, m: Method, op: Option<BinOp>, a: &BigInt, b: &BigInt, want: &Out) -> R {
    let got = answer(call(m, int(a), &[int(b)]));
    ensure!(got == *want, "{a} {what} {b}: {got:?}, should be {want:?}");
    if let Some(op) = op {
        let got = answer(apply(op, int(a), int(b)));
        ensure!(got == *want, "{a} {what} {b} as an instruction: {got:?}, should be {want:?}");
    }
    Ok(())
}

fn classify(cx: &mut Cx, parts: &[&BigInt], out: &Out) {
    let word = parts.iter().all(|p| is_small(p));
    match out {
        Out::Int(n) if is_small(n) && !word => {
            cx.label("heap operands, small result");
            cx.nontrivial();
        }
        Out::Int(n) if !is_small(n) && word => {
            cx.label("small operands, heap result");
            cx.nontrivial();
        }
        Out::Int(_) if !word => {
            cx.label("heap operands and result");
            cx.nontrivial();
        }
        Out::Err(_) => cx.label("refused"),
        _ => {}
    }
}

fn arith(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_int(s);
    // Often a partner whose result lands near a boundary.
    let b = match s.weighted(&[6, 2, 1]) {
        0 => gen_int(s),
        1 => gen_int(s) - &a,
        _ => {
            let t = gen_int(s);
            if a.is_zero() { t } else { floor_div(&t, &a) }
        }
    };
    note!(cx, "a = {a}, b = {b}");
    let z = b.is_zero();
    let div = |f: &dyn Fn() -> Out| if z { Out::Err(Kind::ZeroDivision) } else { f() };
    let q = || floor_div(&a, &b);
    let r = || &a - &(&q() * &b);
    let cases: [(&str, Method, Option<BinOp>, Out); 9] = [
        ("+", n::ADD, Some(op::add_values), Out::Int(&a + &b)),
        ("-", n::SUB, Some(op::sub_values), Out::Int(&a - &b)),
        ("*", n::MUL, Some(op::mul_values), Out::Int(&a * &b)),
        ("/", n::DIV, Some(op::div_values), div(&|| Out::Int(q()))),
        ("%", i::int_rem, Some(op::rem_values), div(&|| Out::Int(r()))),
        ("divmod", n::DIVMOD, None, div(&|| Out::List(vec![Out::Int(q()), Out::Int(r())]))),
        ("&", i::BITAND, Some(op::bitand_values), Out::Int(&a & &b)),
        ("|", i::BITOR, Some(op::bitor_values), Out::Int(&a | &b)),
        ("^", i::BITXOR, Some(op::bitxor_values), Out::Int(&a ^ &b)),
    ];
    for (what, m, op, want) in &cases {
        classify(cx, &[&a, &b], want);
        both(what, *m, *op, &a, &b, want)?;
    }
    // The bit operations once more, bit by bit.
    for (what, op, f) in [
        ("&", op::bitand_values as BinOp, (|x, y| x && y) as fn(bool, bool) -> bool),
        ("|", op::bitor_values, |x, y| x || y),
        ("^", op::bitxor_values, |x, y| x != y),
    ] {
        if let Out::Int(r) = answer(apply(op, int(&a), int(&b))) {
            for k in [0, 1, 31, 32, 61, 62, 63, 64, 65, 127, 128, 200, 2000] {
                ensure!(bit(&r, k) == f(bit(&a, k), bit(&b, k)), "bit {k} of {a} {what} {b} = {r}");
            }
        }
    }
    Ok(())
}

/// A bit of the endless two's complement form.
fn bit(n: &BigInt, k: u32) -> bool {
    (floor_div(n, &pow2(k)) & BigInt::from(1)) == BigInt::from(1)
}

fn shift(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_int(s);
    let by: BigInt = match s.weighted(&[8, 4, 2]) {
        0 => big(s.below(141) as i128 - 70),
        1 => big(s.below(400) as i128 - 200),
        _ => {
            let n = pow2(s.pick(&[31u32, 32, 33, 61, 62, 63, 64, 70])) + big(s.below(3) as i128 - 1);
            if s.bool() { -n } else { n }
        }
    };
    note!(cx, "{a} shifted by {by}");
    let zero = BigInt::from(0);
    // What is left after moving to the left by `by`; a distance no result could be kept for is
    // only tried where it leaves nothing to keep.
    let left = |by: &BigInt| -> Option<Out> {
        let small = by.to_i64().filter(|n| n.unsigned_abs() < 10_000);
        match small {
            Some(n) if n >= 0 => Some(Out::Int(&a << n as u32)),
            Some(n) => Some(Out::Int(floor_div(&a, &pow2(-n as u32)))),
            None if by.is_negative() => Some(Out::Int(if a.is_negative() { big(-1) } else { big(0) })),
            None if a.is_zero() => Some(Out::Int(big(0))),
            None if *by > pow2(61) => Some(Out::Err(Kind::Range)),
            None => None,
        }
    };
    for (what, m, fold, op, want) in [
        ("<<", i::shl as Method, None, Some(op::shl_values as BinOp), left(&by)),
        (">>", i::shr as Method, None, Some(op::shr_values as BinOp), left(&-&by)),
    ] as [(&str, Method, Option<Method>, Option<BinOp>, Option<Out>); 2]
    {
        let Some(want) = want else {
            cx.label("too far to keep");
            continue;
        };
        classify(cx, &[&a], &want);
        both(what, m, op, &a, &by, &want)?;
    }
    // The folded forms, used when the distance is known beforehand.
    if let (Some(x), Some(n)) = (a.to_i64().filter(|_| is_small(&a)), by.to_i64()) {
        if n.unsigned_abs() < 10_000 {
            for (what, got, want) in [
                ("<<", i::fold_shl(x, n), left(&by)),
                (">>", i::fold_shr(x, n), left(&-&by)),
            ] {
                if let (Some(got), Some(want)) = (got, want) {
                    let got = Out::Int(big(got as i128));
                    ensure!(got == want, "{a} {what} {by} folded: {got:?}, should be {want:?}");
                }
            }
        }
    }
    Ok(())
}

fn power(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = if s.bool() { big(s.below(41) as i128 - 20) } else { gen_int(s) };
    let unit = a.is_zero() || a.abs().is_one();
    let e: BigInt = if unit && s.chance(1, 2) {
        gen_int(s)
    } else {
        big(s.below(2) as i128 * s.below(62) as i128 + s.below(8) as i128) * big(if s.chance(1, 3) { -1 } else { 1 })
    };
    let far = !unit && s.chance(1, 20);
    let e = if far { pow2(s.range(40, 70) as u32) * big(if s.bool() { 1 } else { -1 }) + e } else { e };
    note!(cx, "{a} ** {e}");
    if far {
        // No room for such a power, so it is refused.
        cx.label("too large");
        for got in [
            answer(call(i::int_pow, int(&a), &[int(&e)])),
            answer(apply(op::pow_values, int(&a), int(&e))),
        ] {
            ensure!(matches!(got, Out::Err(_)), "{a} ** {e}: {got:?}, should be refused");
        }
        return Ok(());
    }
    let want = if unit {
        let odd = bit(&e, 0);
        if a.is_zero() && e.is_negative() {
            Out::Err(Kind::ZeroDivision)
        } else if e.is_zero() || a == big(1) || (a == big(-1) && !odd) {
            Out::Int(big(1))
        } else {
            Out::Int(a.clone())
        }
    } else {
        let n = e.abs().to_i64().unwrap();
        let mut p = big(1);
        for _ in 0..n {
            p = &p * &a;
        }
        if e.is_negative() { rat(big(1), p) } else { Out::Int(p) }
    };
    // 1 ** -1 and the like may be answered as an integer or as a rational of the same value.
    let same = |got: &Out| match (got, &want) {
        (Out::Rat(n, d), Out::Int(w)) if e.is_negative() => n == w && d.is_one(),
        (g, w) => g == w,
    };
    classify(cx, &[&a, &e], &want);
    for (what, got) in [
        ("Integer#**", answer(call(i::int_pow, int(&a), &[int(&e)]))),
        ("Integer#pow", answer(call(i::pow, int(&a), &[int(&e)]))),
        ("the instruction **", answer(apply(op::pow_values, int(&a), int(&e)))),
    ] {
        ensure!(same(&got), "{what} of {a} and {e}: {got:?}, should be {want:?}");
    }
    Ok(())
}

fn power_mod(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_int(s);
    let e = if s.bool() { big(s.below(12) as i128 - 1) } else { gen_int(s) };
    let m = gen_int(s);
    note!(cx, "{a}.pow({e}, {m})");
    let want = if e.is_negative() {
        Out::Err(Kind::Range)
    } else if m.is_zero() {
        Out::Err(Kind::ZeroDivision)
    } else {
        let modulo = |x: BigInt| &x - &(&floor_div(&x, &m) * &m);
        let (mut r, mut b, mut k) = (modulo(big(1)), modulo(a.clone()), e.clone());
        while !k.is_zero() {
            if bit(&k, 0) {
                r = modulo(&r * &b);
            }
            b = modulo(&b * &b);
            k = k >> 1u32;
        }
        Out::Int(r)
    };
    classify(cx, &[&a, &e, &m], &want);
    let got = answer(call(i::pow, int(&a), &[int(&e), int(&m)]));
    let both_wrong = e.is_negative() && m.is_zero();
    ensure!(
        got == want || (both_wrong && matches!(got, Out::Err(_))),
        "{a}.pow({e}, {m}): {got:?}, should be {want:?}"
    );
    Ok(())
}

fn compare(s: &mut Src, cx: &mut Cx) -> R {
    use std::cmp::Ordering::*;
    sweep_all();
    let a = gen_int(s);
    let b = if s.chance(1, 3) { &a + &big(s.below(3) as i128 - 1) } else { gen_int(s) };
    note!(cx, "{a} against {b}");
    if !is_small(&a) || !is_small(&b) {
        cx.nontrivial();
    }
    let o = a.cmp(&b);
    let t = Out::Bool;
    for (what, m, op, want) in [
        ("==", i::eq as Method, Some(op::cmp_eq_values as BinOp), t(o == Equal)),
        ("!=", i::ne, None, t(o != Equal)),
        ("===", i::eq, Some(op::cmp_teq_values), t(o == Equal)),
        ("case ===", i::eq, Some(op::cmp_teq_case_values), t(o == Equal)),
        ("eql?", i::eql_, None, t(o == Equal)),
        ("<=>", i::cmp, None, Out::Int(big(o as i128))),
        ("<", i::LT, Some(op::cmp_lt_values), t(o == Less)),
        ("<=", i::LE, Some(op::cmp_le_values), t(o != Greater)),
        (">", i::GT, Some(op::cmp_gt_values), t(o == Greater)),
        (">=", i::GE, Some(op::cmp_ge_values), t(o != Less)),
    ] {
        both(what, m, op, &a, &b, &want)?;
    }
    let (va, vb) = (int(&a), int(&b));
    let (mut vm, mut g) = (Executor::default(), world());
    let eq = vm.ne_values_bool(&mut g, va, vb).map(|b| !b);
    ensure!(eq == Ok(o == Equal), "!= of {a} and {b} in the interpreter says {eq:?}");
    let teq = op::cmp_teq_values_bool(&mut vm, &mut g, va, vb);
    ensure!(teq == Ok(o == Equal), "=== of {a} and {b} in the interpreter says {teq:?}");
    let cmp = vm.compare_values_inner(&mut g, va, vb);
    ensure!(cmp == Ok(Some(o)), "sorting order of {a} and {b}: {cmp:?}");
    let eql = va.eql(&vb, &mut vm, &mut g);
    ensure!(eql == Ok(o == Equal), "{a} and {b} as keys: {eql:?}");
    if o == Equal {
        cx.label("equal");
        let (h, k) = (va.calculate_hash(&mut vm, &mut g), vb.calculate_hash(&mut vm, &mut g));
        ensure!(h == k, "equal integers {a} hash differently");
        let (h, k) = (answer(call(i::hash, va, &[])), answer(call(i::hash, vb, &[])));
        ensure!(h == k && matches!(h, Out::Int(_)), "Integer#hash of {a}: {h:?} and {k:?}");
    }
    Ok(())
}

fn bits_of(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_int(s);
    let pos = |s: &mut Src| -> i128 {
        match s.weighted(&[6, 3, 1]) {
            0 => s.below(140) as i128 - 6,
            1 => s.pick(&[0, 1, 61, 62, 63, 64, 65, 127, 128, -1, -2, -62, -63, -64, -65]),
            _ => s.below(400) as i128 - 100,
        }
    };
    let down = |by: i128| if by >= 0 { floor_div(&a, &pow2(by as u32)) } else { &a << (-by) as u32 };
    let low = |n: BigInt, len: i128| n & (pow2(len as u32) - BigInt::from(1));
    let one = |at: i128| big((at >= 0 && bit(&a, at as u32)) as i128);
    let (what, args, want) = match s.weighted(&[3, 2, 3, 3, 2, 2]) {
        0 => {
            let at = pos(s);
            (format!("{a}[{at}]"), vec![int(&big(at))], Out::Int(one(at)))
        }
        1 => {
            let at = pow2(s.pick(&[62u32, 63, 64, 80])) * big(if s.bool() { 1 } else { -1 });
            let want = big((!at.is_negative() && a.is_negative()) as i128);
            (format!("{a}[{at}]"), vec![int(&at)], Out::Int(want))
        }
        2 => {
            let (at, len) = (pos(s), pos(s));
            let want = if len < 0 { down(at) } else { low(down(at), len) };
            (format!("{a}[{at}, {len}]"), vec![int(&big(at)), int(&big(len))], Out::Int(want))
        }
        3 => {
            let (from, to, excl) = (pos(s), pos(s), s.bool());
            let want = if to > from {
                low(down(from), to - from + !excl as i128)
            } else if to < from {
                down(from)
            } else if excl {
                big(0)
            } else {
                one(from)
            };
            let r = Value::range(int(&big(from)), int(&big(to)), excl);
            (format!("{a}[{from}..{}{to}]", if excl { "." } else { "" }), vec![r], Out::Int(want))
        }
        4 => {
            let (from, excl) = (pos(s), s.bool());
            let r = Value::range(int(&big(from)), Value::nil(), excl);
            (format!("{a}[{from}..]"), vec![r], Out::Int(down(from)))
        }
        _ => {
            let (to, excl) = (pos(s), s.bool());
            let want = if to < 0 || low(a.clone(), to + !excl as i128).is_zero() {
                Out::Int(big(0))
            } else {
                Out::Err(Kind::Argument)
            };
            let r = Value::range(Value::nil(), int(&big(to)), excl);
            (format!("{a}[..{}{to}]", if excl { "." } else { "" }), vec![r], want)
        }
    };
    note!(cx, "{what}");
    if !is_small(&a) || a.is_negative() {
        cx.nontrivial();
    }
    let got = answer(call(i::index, int(&a), &args));
    ensure!(got == want, "{what}: {got:?}, should be {want:?}");
    if args.len() == 1 {
        let got = answer(op::integer_index1(&mut Executor::default(), &mut world(), int(&a), args[0]));
        ensure!(got == want, "{what} as an instruction: {got:?}, should be {want:?}");
    }
    Ok(())
}

fn single(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_int(s);
    note!(cx, "{a}");
    if !is_small(&a) || is_small(&a) != is_small(&(&a + &big(1))) || is_small(&a) != is_small(&-&a) {
        cx.nontrivial();
    }
    let width = if a.is_negative() { (-&a - BigInt::from(1)).bits() } else { a.bits() };
    let t = Out::Bool;
    let nil_or = |b: bool, o: Out| if b { o } else { Out::Nil };
    for (what, m, want) in [
        ("-@", n::NEG as Method, Out::Int(-&a)),
        ("+@", n::POS, Out::Int(a.clone())),
        ("~", n::BITNOT, Out::Int(-&a - BigInt::from(1))),
        ("abs", i::abs, Out::Int(a.abs())),
        ("succ", i::succ, Out::Int(&a + &big(1))),
        ("even?", i::even_, t(!bit(&a, 0))),
        ("odd?", i::odd_, t(bit(&a, 0))),
        ("zero?", i::zero_, t(a.is_zero())),
        ("nonzero?", i::nonzero_, nil_or(!a.is_zero(), Out::Int(a.clone()))),
        ("bit_length", i::bit_length, Out::Int(big(width as i128))),
        ("to_f", i::to_f, Out::Float(nearest(&a))),
    ] {
        let got = answer(call(m, int(&a), &[]));
        ensure!(got == want, "{a}.{what}: {got:?}, should be {want:?}");
    }
    let mut vm = Executor::default();
    type Un = extern "C" fn(&mut Executor, &mut Globals, Value, bool) -> Option<Value>;
    for (what, f, want) in [
        ("-", op::neg_value as Un, Out::Int(-&a)),
        ("~", op::bitnot_value as Un, Out::Int(-&a - BigInt::from(1))),
    ] {
        let got = f(&mut vm, &mut world(), int(&a), false).map(read).unwrap_or(Out::Nil);
        ensure!(got == want, "{what} {a} as an instruction: {got:?}, should be {want:?}");
    }
    if let Out::Int(n) = answer(call(i::size, int(&a), &[])) {
        ensure!(n * BigInt::from(8) >= big(width as i128), "{a}.size is too small");
    } else {
        fail!("{a}.size is no integer");
    }
    // Digits in any base, read back.
    let radix = s.range(0, 38) as i128;
    let got = answer(call(i::to_s, int(&a), &[int(&big(radix))]));
    if !(2..=36).contains(&radix) {
        ensure!(got == Out::Err(Kind::Argument), "{a}.to_s({radix}): {got:?}");
    } else {
        let want = digits(&a, radix);
        ensure!(got == Out::Str(want.clone()), "{a}.to_s({radix}): {got:?}, should be {want}");
    }
    let got = answer(call_opt(i::to_s, int(&a), vec![None]));
    ensure!(got == Out::Str(digits(&a, 10)), "{a}.to_s: {got:?}");
    Ok(())
}

fn digits(n: &BigInt, radix: i128) -> String {
    let mut d = vec![];
    let mut m = n.abs();
    while !m.is_zero() {
        let q = floor_div(&m, &big(radix));
        let r = (&m - &(&q * &big(radix))).to_i64().unwrap();
        d.push(std::char::from_digit(r as u32, 36).unwrap());
        m = q;
    }
    if d.is_empty() {
        d.push('0');
    }
    if n.is_negative() {
        d.push('-');
    }
    d.iter().rev().collect()
}

/// The float nearest to an integer, the even one of two equally near.
fn nearest(n: &BigInt) -> f64 {
    let m = n.abs();
    let w = m.bits();
    let f = if w <= 64 {
        // The machine rounds 64 bits correctly.
        m.to_u64().unwrap() as f64
    } else {
        let cut = (w - 64) as u32;
        let top = floor_div(&m, &pow2(cut));
        let rest = !(&m - &(&top * &pow2(cut))).is_zero();
        let sticky = top.to_u64().unwrap() | rest as u64;
        if cut > 1000 { f64::INFINITY } else { sticky as f64 * 2f64.powi(cut as i32) }
    };
    if n.is_negative() { -f } else { f }
}

fn rounding(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let nd = match s.weighted(&[10, 2, 1]) {
        0 => -(s.below(24) as i64),
        1 => s.below(5) as i64,
        _ => -(s.below(60) as i64),
    };
    let unit = pow10(nd.min(0).unsigned_abs() as u32);
    let a = match s.weighted(&[3, 2]) {
        0 => gen_int(s),
        // Half-way between two multiples, or just beside.
        _ => {
            let n = &unit * &big(s.below(20) as i128) + floor_div(&unit, &big(2)) + big(s.below(3) as i128 - 1);
            if s.bool() { -n } else { n }
        }
    };
    note!(cx, "{a} rounded to {nd}");
    let lo = &floor_div(&a, &unit) * &unit;
    let exact = lo == a;
    let hi = if exact { lo.clone() } else { &lo + &unit };
    let zero = BigInt::from(0);
    let toward = if a.is_negative() { hi.clone() } else { lo.clone() };
    let away = if a.is_negative() { lo.clone() } else { hi.clone() };
    let twice = (&a - &toward).abs() * big(2);
    let pick = |half: &BigInt| match twice.cmp(&unit) {
        std::cmp::Ordering::Less => toward.clone(),
        std::cmp::Ordering::Greater => away.clone(),
        std::cmp::Ordering::Equal => half.clone(),
    };
    let even = if bit(&floor_div(&toward, &unit), 0) { away.clone() } else { toward.clone() };
    let (away, toward) = (if exact { a.clone() } else { away.clone() }, toward.clone());
    if nd < 0 && !exact {
        cx.nontrivial();
        if twice == unit {
            cx.label("half-way");
        }
    }
    let d = Some(Value::integer(nd));
    for (what, m, want) in [
        ("floor", i::int_floor as Method, &lo),
        ("ceil", i::int_ceil, &hi),
        ("truncate", i::int_truncate, &toward),
    ] {
        let got = answer(call_opt(m, int(&a), vec![d]));
        ensure!(got == Out::Int(want.clone()), "{a}.{what}({nd}): {got:?}, should be {want}");
        let got = answer(call_opt(m, int(&a), vec![None]));
        ensure!(got == Out::Int(a.clone()), "{a}.{what}: {got:?}");
    }
    let mode = |m: &str| Some(Value::symbol(IdentId::get_id(m)));
    for (half, want) in [
        (None, pick(&away)),
        (Some(Value::nil()), pick(&away)),
        (mode("up"), pick(&away)),
        (mode("even"), pick(&even)),
        (mode("down"), pick(&toward)),
    ] {
        let got = answer(call_opt(i::int_round, int(&a), vec![d, half]));
        let name = half.map(|v| format!("{v:?}"));
        ensure!(got == Out::Int(want.clone()), "{a}.round({nd}, half: {name:?}): {got:?}, should be {want}");
    }
    Ok(())
}

/// Operands of another kind are refused, or compare as unlike.
fn strangers(s: &mut Src, cx: &mut Cx) -> R {
    sweep_all();
    let a = gen_int(s);
    let (what, b) = match s.below(4) {
        0 => ("nil", Value::nil()),
        1 => ("true", Value::bool(true)),
        2 => ("a string", Value::string("1")),
        _ => ("a symbol", Value::symbol(IdentId::get_id("x"))),
    };
    note!(cx, "{a} with {what}");
    cx.nontrivial();
    for (name, m, op) in [
        ("+", n::ADD, Some(op::add_values as BinOp)),
        ("-", n::SUB, Some(op::sub_values)),
        ("*", n::MUL, Some(op::mul_values)),
        ("/", n::DIV, Some(op::div_values)),
        ("%", i::int_rem, Some(op::rem_values)),
        ("**", i::int_pow, Some(op::pow_values)),
        ("&", i::BITAND, Some(op::bitand_values)),
        ("|", i::BITOR, Some(op::bitor_values)),
        ("^", i::BITXOR, Some(op::bitxor_values)),
        ("<<", i::shl, Some(op::shl_values)),
        (">>", i::shr, Some(op::shr_values)),
        ("divmod", n::DIVMOD, None),
    ] as [(&str, Method, Option<BinOp>); 12]
    {
        let got = answer(call(m, int(&a), &[b]));
        ensure!(got == Out::Err(Kind::Type), "{a} {name} {what}: {got:?}, should be a TypeError");
        if let Some(op) = op {
            let got = answer(apply(op, int(&a), b));
            ensure!(got == Out::Err(Kind::Type), "{a} {name} {what} as an instruction: {got:?}");
        }
    }
    for (name, m) in [("<", i::LT), ("<=", i::LE), (">", i::GT), (">=", i::GE)] {
        let got = answer(call(m, int(&a), &[b]));
        ensure!(got == Out::Err(Kind::Argument), "{a} {name} {what}: {got:?}");
    }
    let got = answer(call(i::cmp, int(&a), &[b]));
    ensure!(got == Out::Nil, "{a} <=> {what}: {got:?}");
    let got = answer(call(i::eql_, int(&a), &[b]));
    ensure!(got == Out::Bool(false), "{a}.eql?({what}): {got:?}");
    Ok(())
}

fn main() {
    main_props()
}

fn main_props() {
    pbt::main(&[Prop {
        id: "C45",
        rule: "an operand or the result does not fit the word of a small integer, the value is negative where bits are read, or rounding has digits to remove",
        assumptions: &[
            "BigInt is a stand-in with the interface of the num crate, written for these checks",
            "methods are called directly with their arguments in place; generated machine code is not run",
        ],
        level: "exploration",
        suites: &[
            Suite { name: "arith", cases: 120_000, run: arith },
            Suite { name: "shift", cases: 300_000, run: shift },
            Suite { name: "power", cases: 60_000, run: power },
            Suite { name: "power_mod", cases: 20_000, run: power_mod },
            Suite { name: "compare", cases: 120_000, run: compare },
            Suite { name: "bits", cases: 300_000, run: bits_of },
            Suite { name: "single", cases: 100_000, run: single },
            Suite { name: "rounding", cases: 200_000, run: rounding },
            Suite { name: "strangers", cases: 20_000, run: strangers },
        ],
        known: &[],
    }]);
}
