//! The expected number is read by a scanner written from the rules of the language; decimal and
//! hexadecimal floats are rounded by the C library.

use super::*;
use builtins::{kernel, string};
use num::One;

const SPACES: &[char] = &[' ', '\t', '\n', '\x0b', '\x0c', '\r'];
/// Blank elsewhere, but not to a number.
const OTHER_SPACES: &[char] = &['\u{a0}', '\u{3000}', '\u{2003}', '\u{85}', '\u{1c}'];

fn is_space(c: char) -> bool {
    SPACES.contains(&c)
}

fn digit(g: &mut Src, base: u32) -> char {
    let d = char::from_digit(g.below(base as u64) as u32, base).unwrap();
    if g.chance(1, 4) { d.to_ascii_uppercase() } else { d }
}

fn spaces(g: &mut Src) -> String {
    (0..g.len(2)).map(|_| g.pick(SPACES)).collect()
}

/// Digits of a base, or of a number at the edge of what fits.
fn digits(g: &mut Src, base: u32) -> String {
    match g.weighted(&[6, 3, 2, 2]) {
        0 => (0..g.range(1, 5)).map(|_| digit(g, base)).collect(),
        1 => {
            let n = BigInt::one() << g.pick(&[31u64, 32, 62, 63, 64, 127, 128]);
            let n = n + BigInt::from(g.below(5)) - BigInt::from(2u64);
            n.to_str_radix(base)
        }
        2 => (0..g.range(5, 70)).map(|_| digit(g, base)).collect(),
        _ => "0".repeat(g.range(1, 3)) + &(0..g.len(4)).map(|_| digit(g, base)).collect::<String>(),
    }
}

fn underscores(g: &mut Src, s: &str) -> String {
    if !g.chance(2, 5) {
        return s.into();
    }
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && g.chance(1, 3) {
            out.push('_');
        }
        out.push(c);
    }
    out
}

/// Something that does not belong.
fn stray(g: &mut Src) -> String {
    match g.below(8) {
        0 => "_".into(),
        1 => "__".into(),
        2 => g.pick(&["+", "-"]).into(),
        3 => g.pick(OTHER_SPACES).to_string(),
        4 => g.pick(&["x", "z", ".", "e", "é", "１", "\0", ",", "p", "/", ":", "@", "[", "`", "{"]).into(),
        5 => g.pick(SPACES).to_string(),
        6 => g.pick(&["0", "0x", "0b", "0o", "0d"]).into(),
        _ => g.pick(&["8", "9", "g", "2"]).into(),
    }
}

/// Puts something at a random place, at times.
fn spoil(g: &mut Src, s: String) -> String {
    if !g.chance(1, 3) {
        return s;
    }
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..g.range(1, 2) {
        let at = g.usize(v.len() + 1);
        let t = stray(g);
        for (k, c) in t.chars().enumerate() {
            v.insert(at + k, c);
        }
    }
    v.into_iter().collect()
}

struct Int {
    text: String,
    base: u32,
}

fn integer(g: &mut Src) -> Int {
    let base = match g.weighted(&[4, 4, 6, 4]) {
        0 => 0,
        1 => 10,
        2 => g.pick(&[2, 8, 16, 36]),
        _ => g.range(2, 36) as u32,
    };
    let prefix = match g.weighted(&[5, 3, 2]) {
        0 => "",
        1 => g.pick(&["0x", "0X", "0b", "0B", "0o", "0O", "0d", "0D"]),
        _ => g.pick(&["0", "0_"]),
    };
    let of_prefix = match prefix.to_ascii_lowercase().as_str() {
        "0x" => 16,
        "0b" => 2,
        "0o" => 8,
        "0d" => 10,
        "0" | "0_" => 8,
        _ => 10,
    };
    let of_digits = if g.chance(3, 4) {
        if base == 0 || g.chance(1, 3) { of_prefix } else { base }
    } else {
        g.range(2, 36) as u32
    };
    let d = digits(g, of_digits);
    let d = underscores(g, &d);
    let sign = g.pick(&["", "", "-", "+"]);
    let text = format!("{}{sign}{prefix}{d}{}", spaces(g), spaces(g));
    Int { text: spoil(g, text), base }
}

/// The number at the start of the text, and whether that is all there is to it. `other` is what a
/// text without a prefix is read as if any prefix is recognised.
fn read_int(text: &str, base: u32, any_prefix: Option<u32>) -> (BigInt, bool) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() && is_space(c[i]) {
        i += 1;
    }
    let neg = at(i) == '-' && i < c.len();
    if i < c.len() && matches!(c[i], '+' | '-') {
        i += 1;
    }
    let named = if at(i) == '0' && i + 1 < c.len() {
        match c[i + 1] {
            'x' | 'X' => 16,
            'b' | 'B' => 2,
            'o' | 'O' => 8,
            'd' | 'D' => 10,
            _ => 0,
        }
    } else {
        0
    };
    let mut radix = base;
    if let Some(plain) = any_prefix {
        radix = match named {
            // a leading zero means octal
            0 if plain == 10 && at(i) == '0' && i + 1 < c.len() => 8,
            0 => plain,
            n => n,
        };
    }
    if named != 0 && named == radix {
        i += 2;
    }
    let mut n = BigInt::zero();
    let mut any = false;
    while i < c.len() {
        if let Some(d) = c[i].is_ascii().then(|| c[i].to_digit(radix)).flatten() {
            n = n * BigInt::from(radix as u64) + BigInt::from(d as u64);
            any = true;
            i += 1;
        } else if c[i] == '_' && any && c[i - 1] != '_' && i + 1 < c.len() && c[i + 1].is_ascii() && c[i + 1].to_digit(radix).is_some() {
            i += 1;
        } else {
            break;
        }
    }
    let rest = c[i..].iter().all(|c| is_space(*c));
    (if neg { -n } else { n }, any && rest)
}

fn show(r: &Result<Value>) -> String {
    match r {
        Ok(v) => format!("{v:?}"),
        Err(e) => format!("{e:?}"),
    }
}

/// The text, at times with a byte behind it that is no character.
fn recv(g: &mut Src, text: &str) -> Value {
    match g.below(8) {
        0 => {
            let mut b = text.as_bytes().to_vec();
            b.push(g.pick(&[0x80, 0xff, 0xe3, 0xb1]));
            b.extend(g.pick(&["", "1", "_2"]).as_bytes());
            let enc = g.pick(&[Encoding::Utf8, Encoding::Ascii8]);
            Value::string_from_inner(RStringInner::from_encoding_scanned(&b, enc))
        }
        _ => Value::string(text),
    }
}

fn to_i(g: &mut Src, cx: &mut Cx) -> R {
    let Int { text, base } = integer(g);
    let recv = recv(g, &text);
    let (f, name): (Method, &str) = match g.weighted(&[4, 1, 1]) {
        0 => (string::to_i, "to_i"),
        1 => (string::hex, "hex"),
        _ => (string::oct, "oct"),
    };
    let (args, expect) = match name {
        "hex" => (vec![], read_int(&text, 16, None)),
        "oct" => (vec![], read_int(&text, 8, Some(8))),
        _ if base == 10 && g.bool() => (vec![None], read_int(&text, 10, None)),
        _ if base == 0 => (vec![Some(Value::integer(0))], read_int(&text, 0, Some(10))),
        _ => (vec![Some(Value::integer(base as i64))], read_int(&text, base, None)),
    };
    let r = call_opt(f, recv, args);
    note!(cx, "{recv:?} {text:?}.{name}({base}) -> {}", show(&r));
    let got = r.ok().and_then(|v| v.big());
    sweep_all();
    if !expect.0.is_zero() {
        cx.nontrivial();
    }
    cx.label(if expect.1 { "all of it" } else { "a prefix" });
    same!(got, Some(expect.0), "{name} of {text:?}");
    Ok(())
}

fn kernel_integer(g: &mut Src, cx: &mut Cx) -> R {
    let Int { text, base } = integer(g);
    let (n, all) = if base == 0 { read_int(&text, 0, Some(10)) } else { read_int(&text, base, None) };
    let quiet = g.chance(1, 4);
    let given = if base == 0 && g.bool() { None } else { Some(Value::integer(base as i64)) };
    let r = call_opt(kernel::kernel_integer, Value::nil(), vec![Some(Value::string(text.as_str())), given, quiet.then(|| Value::bool(false))]);
    note!(cx, "Integer({text:?}, {base}) -> {}", show(&r));
    let got = match &r {
        Ok(v) if v.is_nil() && quiet => Ok(None),
        Ok(v) => Ok(v.big()),
        Err(MonorubyErr::Argument(_)) => Err(()),
        Err(e) => fail!("refused by {e:?}"),
    };
    sweep_all();
    if all {
        cx.nontrivial();
    }
    cx.label(if all { "accepted" } else { "refused" });
    match (all, quiet) {
        (true, _) => same!(got, Ok(Some(n)), "Integer({text:?}, {base})"),
        (false, true) => same!(got, Ok(None), "Integer({text:?}, {base})"),
        (false, false) => same!(got, Err(()), "Integer({text:?}, {base})"),
    }
    Ok(())
}

/// Integer() of a number.
fn kernel_integer_of_float(g: &mut Src, cx: &mut Cx) -> R {
    let f = match g.weighted(&[2, 3, 2, 1]) {
        0 => g.below(4000) as f64 / 8.0,
        1 => 2f64.powi(g.range(30, 70) as i32) * g.pick(&[1.0, 1.0 + f64::EPSILON, 1.0 - f64::EPSILON / 2.0]),
        2 => f64::from_bits(g.u64() & !(1 << 63)),
        _ => g.pick(&[f64::NAN, f64::INFINITY, f64::MAX, 0.0, 5e-324]),
    };
    let f = if g.bool() { -f } else { f };
    let r = call_opt(kernel::kernel_integer, Value::nil(), vec![Some(Value::float(f)), None, None]);
    note!(cx, "Integer({f:?}) -> {}", show(&r));
    let got = r.as_ref().map(|v| v.big()).map_err(|e| matches!(e, MonorubyErr::FloatDomain(_)));
    let expect = if f.is_finite() {
        // the bits say it exactly
        let bits = f.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i64 - 1075;
        let m = BigInt::from((bits & ((1 << 52) - 1)) | if e > -1075 { 1 << 52 } else { 0 });
        let m = if e >= 0 { m << (e as u64) } else if e < -63 { BigInt::zero() } else { m >> ((-e) as u64) };
        Ok(Some(if f < 0.0 { -m } else { m }))
    } else {
        Err(true)
    };
    if f.is_finite() && f.abs() >= 1.0 {
        cx.nontrivial();
    }
    same!(got, expect, "Integer({f:?})");
    sweep_all();
    Ok(())
}

fn strtod(s: &str) -> f64 {
    let c = std::ffi::CString::new(s).unwrap();
    unsafe { libc::strtod(c.as_ptr(), std::ptr::null_mut()) }
}

struct Flt {
    text: String,
    hex: bool,
}

fn float(g: &mut Src) -> Flt {
    let sign = g.pick(&["", "", "-", "+"]);
    let hex = g.chance(1, 5);
    let mut run = |g: &mut Src, lo: usize, hi: usize, base: u32| -> String { (0..g.range(lo, hi)).map(|_| digit(g, base)).collect() };
    let body = if hex {
        // few enough digits to be exact before the exponent applies
        let mut s = g.pick(&["0x", "0X"]).to_string();
        s += &run(g, 1, 6, 16);
        if g.bool() {
            s += ".";
            s += &run(g, 1, 6, 16);
        }
        if g.bool() {
            let e = match g.weighted(&[3, 2, 1]) {
                0 => g.range(0, 60) as i64 - 30,
                1 => g.pick(&[1023, 1024, -1022, -1023, -1050, -1060, -1074, -1075, 1000, 1040, -1090]),
                _ => g.pick(&[100000, -100000, 5000000000, -5000000000]),
            };
            s += &format!("{}{}{}", g.pick(&["p", "P"]), if e >= 0 && g.bool() { "+" } else { "" }, e);
        }
        s
    } else {
        let n = g.pick(&[1, 1, 2, 4, 17]);
        let mut s = match g.weighted(&[8, 1]) {
            0 => {
                let r = run(g, 1, n, 10);
                underscores(g, &r)
            }
            _ => String::new(),
        };
        if s.is_empty() || g.bool() {
            let r = run(g, 1, n, 10);
            s += ".";
            s += &underscores(g, &r);
        }
        if g.bool() {
            let e = match g.weighted(&[3, 1, 1]) {
                0 => g.range(0, 60) as i64 - 30,
                1 => g.pick(&[308, 309, -308, -323, -324, -325, 400, -400, 22, 23]),
                _ => g.range(0, 700) as i64 - 350,
            };
            s += &format!("{}{}{}", g.pick(&["e", "E"]), if e >= 0 && g.bool() { "+" } else { "" }, e);
        }
        // half-way cases and their neighbours
        if g.chance(1, 12) {
            s = g.pick(&["9007199254740993", "9007199254740993.00000000000000001", "1.00000000000000011102230246251565404", "1.00000000000000011102230246251565405", "2.2250738585072011e-308", "4.9406564584124654e-324", "2.4703282292062327e-324", "1.7976931348623159e308", "1.7976931348623158e308", "5e-325"]).into();
        }
        s
    };
    let text = format!("{}{sign}{body}{}", spaces(g), spaces(g));
    Flt { text: spoil(g, text), hex }
}

/// The float at the start of the text, whether that is all, and whether the rules are in doubt.
fn read_float(text: &str) -> (f64, bool, bool) {
    let c: Vec<char> = text.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    while i < c.len() && is_space(c[i]) {
        i += 1;
    }
    let mut buf = String::new();
    if matches!(at(i), '+' | '-') {
        buf.push(at(i));
        i += 1;
    }
    if at(i) == '0' && matches!(at(i + 1), 'x' | 'X') {
        let tail: String = c[i..].iter().collect();
        let tail = tail.trim_end_matches(is_space).to_string();
        let (m, e) = match tail[2..].split_once(['p', 'P']) {
            Some((m, e)) => (m, Some(e)),
            None => (&tail[2..], None),
        };
        let hexits = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_hexdigit());
        let mant = match m.split_once('.') {
            Some((a, b)) => hexits(a) && hexits(b),
            None => hexits(m),
        };
        let exp = e.is_none_or(|e| {
            let d = e.strip_prefix(['+', '-']).unwrap_or(e);
            !d.is_empty() && d.bytes().all(|b| b.is_ascii_digit())
        });
        let ok = mant && exp;
        let v = if ok { strtod(&format!("{buf}{tail}")) } else { 0.0 };
        // an underscore is at home only between decimal digits, `1.` has come to be accepted
        let lone = m.starts_with('.') || m.ends_with('.');
        return (v, ok, tail.contains('_') || lone);
    }
    let run = |i: &mut usize, buf: &mut String| -> bool {
        let from = *i;
        while *i < c.len() {
            if c[*i].is_ascii_digit() {
                buf.push(c[*i]);
            } else if !(c[*i] == '_' && *i > from && c[*i - 1].is_ascii_digit() && at(*i + 1).is_ascii_digit()) {
                break;
            }
            *i += 1;
        }
        *i > from
    };
    let whole = run(&mut i, &mut buf);
    let mut doubt = false;
    if at(i) == '.' {
        if at(i + 1).is_ascii_digit() {
            buf.push('.');
            i += 1;
            run(&mut i, &mut buf);
        } else {
            // `1.` and `1.e5` have come to be accepted
            doubt = true;
        }
    }
    if !buf.chars().any(|c| c.is_ascii_digit()) {
        // the sign of nothing
        return (0.0, false, doubt || !buf.is_empty());
    }
    if matches!(at(i), 'e' | 'E') {
        let k = i + 1 + matches!(at(i + 1), '+' | '-') as usize;
        if at(k).is_ascii_digit() {
            buf.extend(&c[i..k]);
            i = k;
            run(&mut i, &mut buf);
        }
    }
    let all = c[i..].iter().all(|c| is_space(*c));
    (strtod(&buf), all, doubt)
}

fn bits(f: f64) -> u64 {
    f.to_bits()
}

fn to_f(g: &mut Src, cx: &mut Cx) -> R {
    let Flt { text, .. } = float(g);
    let (f, _, doubt) = read_float(&text);
    let bare = text.trim_start_matches(is_space).to_ascii_lowercase();
    // to_f does not read hexadecimal
    let hex = bare.starts_with("0x");
    if (doubt && !hex) || bare.starts_with("-0x") || bare.starts_with("+0x") {
        cx.label("in doubt");
        return Ok(());
    }
    let f = if hex { 0.0 } else { f };
    let recv = recv(g, &text);
    let r = call(string::to_f, recv, &[]);
    note!(cx, "{recv:?} {text:?}.to_f -> {}", show(&r));
    let got = r.ok().and_then(|v| v.try_float());
    sweep_all();
    if f != 0.0 {
        cx.nontrivial();
    }
    same!(got.map(bits), Some(bits(f)), "to_f of {text:?}");
    Ok(())
}

fn kernel_float(g: &mut Src, cx: &mut Cx) -> R {
    let Flt { text, hex } = float(g);
    let (f, all, doubt) = read_float(&text);
    // a longer hexadecimal mantissa may be rounded at every digit
    let low = text.to_ascii_lowercase();
    let long = low.split_once("0x").is_some_and(|(_, m)| m.split('p').next().unwrap_or("").bytes().filter(u8::is_ascii_hexdigit).count() > 13);
    if doubt || long {
        cx.label("in doubt");
        return Ok(());
    }
    let r = call_opt(kernel::kernel_float, Value::nil(), vec![Some(Value::string(text.as_str())), None]);
    note!(cx, "Float({text:?}) -> {}", show(&r));
    let got = match &r {
        Ok(v) => Ok(v.try_float().map(bits)),
        Err(MonorubyErr::Argument(_)) => Err(()),
        Err(e) => fail!("refused by {e:?}"),
    };
    sweep_all();
    if all {
        cx.nontrivial();
    }
    cx.label(match (all, hex) {
        (false, _) => "refused",
        (_, true) => "hexadecimal",
        _ => "decimal",
    });
    same!(got, if all { Ok(Some(bits(f))) } else { Err(()) }, "Float({text:?})");
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C39",
    rule: "a number other than zero is read, or the whole text is accepted",
    assumptions: &["the C library rounds decimal and hexadecimal floats correctly"],
    level: "exploration",
    suites: &[
        Suite { name: "to_i", cases: 8_000_000, run: to_i },
        Suite { name: "Integer", cases: 4_000_000, run: kernel_integer },
        Suite { name: "Integer of floats", cases: 1_200_000, run: kernel_integer_of_float },
        Suite { name: "to_f", cases: 4_000_000, run: to_f },
        Suite { name: "Float", cases: 4_000_000, run: kernel_float },
    ],
    known: &[],
};
