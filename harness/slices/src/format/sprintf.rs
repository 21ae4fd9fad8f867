//! C38: sprintf against a reference written from the rules of the language: floats by the C
//! library, integers digit by digit.

use super::*;
use num::{One, Signed};

/// A directive before it is written down.
struct Dir {
    zero: bool,
    minus: bool,
    plus: bool,
    space: bool,
    sharp: bool,
    width: Option<i64>,
    star_width: bool,
    prec: Option<i64>,
    star_prec: bool,
    conv: char,
    arg: Arg,
}

#[derive(Clone)]
enum Arg {
    Int(BigInt),
    Float(f64),
    /// A number written as text, and the number.
    Text(String, BigInt),
    Str(String),
    Nil,
}

impl Arg {
    fn value(&self) -> Value {
        match self {
            Arg::Int(i) => Value::bigint(i.clone()),
            Arg::Float(f) => Value::float(*f),
            Arg::Text(s, _) | Arg::Str(s) => Value::string(s.clone()),
            Arg::Nil => Value::nil(),
        }
    }
}

fn int(g: &mut Src) -> BigInt {
    let b = match g.weighted(&[4, 3, 2, 2]) {
        0 => BigInt::from(g.below(300)),
        1 => (BigInt::one() << g.below(70)) + BigInt::from(g.below(5)) - BigInt::from(2u64),
        2 => BigInt::from(g.u64()) >> g.below(64),
        _ => {
            let mut b = BigInt::one();
            for _ in 0..g.range(1, 4) {
                b = (b << 64u64) + BigInt::from(g.u64());
            }
            b >> g.below(64)
        }
    };
    if g.bool() { -b } else { b }
}

fn float(g: &mut Src) -> f64 {
    let f = match g.weighted(&[3, 3, 2, 2, 2, 1]) {
        0 => g.below(2000) as f64 / g.pick(&[1.0, 2.0, 4.0, 8.0, 10.0, 100.0, 1000.0]),
        // close to a power of ten, from either side
        1 => {
            let p = 10f64.powi(g.range(0, 24) as i32 - 8);
            p * g.pick(&[1.0, 0.9999999, 0.99999949, 0.9999995, 0.99995, 0.995, 0.95, 9.5, 9.999999999, 1.0000001, 5.0, 0.5])
        }
        2 => f64::from_bits(g.u64() & !(1 << 63)),
        3 => f64::from_bits((g.u64() >> 12) | (1000 + g.below(60)) << 52),
        4 => (g.u64() >> g.below(64)) as f64,
        _ => g.pick(&[0.0, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE, 5e-324, f64::MAX, 0.1, 1e23, 2.5, 1.0]),
    };
    if g.chance(1, 3) { -f } else { f }
}

const CHARS: &[char] = &['a', 'b', ' ', '%', 'é', 'ß', 'あ', '字', '😀', '\u{301}', '1', '.'];

fn text(g: &mut Src, max: usize) -> String {
    let ascii = g.bool();
    (0..g.len(max)).map(|_| g.pick(if ascii { &CHARS[..3] } else { CHARS })).collect()
}

/// A number in one of the spellings source code allows.
fn spelled(g: &mut Src) -> Arg {
    let n = int(g);
    let (neg, m) = (n.is_negative(), n.abs());
    let s = match g.below(5) {
        0 => m.to_string(),
        1 => format!("0x{m:x}"),
        2 => format!("0b{m:b}"),
        3 => format!("0o{m:o}"),
        _ => format!("0{m:o}"),
    };
    Arg::Text(format!("{}{s}", if neg { "-" } else { "" }), n)
}

fn dir(g: &mut Src) -> Dir {
    let conv = g.pick(&['d', 'd', 'i', 'u', 'x', 'x', 'X', 'o', 'o', 'b', 'b', 'B', 'f', 'f', 'f', 'e', 'E', 'g', 'g', 'g', 'G', 'a', 'A', 's', 's', 'p', 'c']);
    let arg = match conv {
        'd' | 'i' | 'u' | 'x' | 'X' | 'o' | 'b' | 'B' => match g.weighted(&[10, 2, 1]) {
            0 => Arg::Int(int(g)),
            1 => {
                // only whole numbers, whatever way fractions are cut off
                let f = float(g).trunc();
                if f.is_finite() { Arg::Float(f) } else { Arg::Float(2f64.powi(63)) }
            }
            _ => spelled(g),
        },
        'f' => {
            if g.chance(1, 3) {
                Arg::Int(int(g))
            } else {
                Arg::Float(float(g))
            }
        }
        'e' | 'E' | 'g' | 'G' | 'a' | 'A' => {
            if g.chance(1, 8) {
                Arg::Int(BigInt::from(g.u64() >> (11 + g.below(53))))
            } else {
                Arg::Float(float(g))
            }
        }
        'c' => {
            if g.bool() {
                Arg::Int(BigInt::from(g.pick(CHARS) as u32 as u64))
            } else {
                Arg::Str(text(g, 4))
            }
        }
        _ => match g.weighted(&[6, 1, 1]) {
            0 => Arg::Str(text(g, 12)),
            1 => Arg::Nil,
            _ => Arg::Int(int(g)),
        },
    };
    let mut d = Dir {
        zero: g.chance(1, 3),
        minus: g.chance(1, 4),
        plus: g.chance(1, 5),
        space: g.chance(1, 6),
        sharp: g.chance(1, 4),
        width: None,
        star_width: false,
        prec: None,
        star_prec: false,
        conv,
        arg,
    };
    if g.chance(2, 3) {
        let max = g.pick(&[24, 24, 24, 90]);
        d.width = Some(if g.chance(1, 2000) { 65_530 + g.below(9000) } else { g.below(max) } as i64);
        if g.chance(1, 5) {
            d.star_width = true;
            if g.chance(1, 3) {
                d.width = d.width.map(|w| -w);
            }
        } else if d.width == Some(0) {
            d.width = None;
        }
    }
    if conv != 'c' && g.bool() {
        let max = g.pick(&[16, 16, 16, 80]);
        d.prec = Some(if g.chance(1, 2000) { 65_530 + g.below(9000) } else { g.below(max) } as i64);
        if g.chance(1, 5) {
            d.star_prec = true;
            if g.chance(1, 4) {
                d.prec = d.prec.map(|p| -1 - p);
            }
        }
    }
    // whether the sign of nothing counts, and flags without a meaning for text, are left open
    if matches!(conv, 's' | 'p' | 'c') {
        (d.zero, d.plus, d.space, d.sharp) = (false, false, false, false);
    }
    // half-way cases of %a are rounded differently by different libraries
    if matches!(conv, 'a' | 'A')
        && let Some(p) = d.prec
        && (0..13).contains(&p)
    {
        let f = match &d.arg {
            Arg::Float(f) => *f,
            Arg::Int(i) => i.to_f64().unwrap(),
            _ => 0.0,
        };
        if mantissa(f.abs()).1 >> (48 - 4 * p) & 15 == 8 {
            d.prec = None;
            d.star_prec = false;
        }
    }
    d
}

/// Exponent and the 52 bits behind the leading one of a positive finite number.
fn mantissa(f: f64) -> (i64, u64) {
    let bits = f.to_bits();
    let (e, m) = ((bits >> 52) as i64, bits & ((1 << 52) - 1));
    if e > 0 {
        return (e - 1023, m);
    }
    if m == 0 {
        return (0, 0);
    }
    let up = m.leading_zeros() as i64 - 11;
    (-1022 - up, (m << up) & ((1 << 52) - 1))
}

fn pad(s: String, width: i64, minus: bool) -> String {
    let n = (width - s.chars().count() as i64).max(0) as usize;
    if minus { s + &" ".repeat(n) } else { " ".repeat(n) + &s }
}

fn c_float(d: &Dir, conv: char, width: i64, minus: bool, prec: i64, f: f64) -> String {
    let mut fmt = "%".to_string();
    for (on, c) in [(d.zero, '0'), (minus, '-'), (d.plus, '+'), (d.space, ' '), (d.sharp, '#')] {
        if on {
            fmt.push(c);
        }
    }
    fmt += "*.*";
    fmt.push(conv);
    fmt.push('\0');
    let mut buf = vec![0u8; (width + prec) as usize + 500];
    let n = unsafe {
        libc::snprintf(buf.as_mut_ptr() as *mut _, buf.len(), fmt.as_ptr() as *const _, width as i32, prec as i32, f)
    };
    assert!((n as usize) < buf.len());
    String::from_utf8(buf[..n as usize].to_vec()).unwrap()
}

fn sign(d: &Dir, neg: bool) -> &'static str {
    if neg {
        "-"
    } else if d.plus {
        "+"
    } else if d.space {
        " "
    } else {
        ""
    }
}

fn reference(d: &Dir, store: &Store) -> String {
    let (mut width, mut minus) = (d.width.unwrap_or(0), d.minus);
    if width < 0 {
        (width, minus) = (-width, true);
    }
    let prec = d.prec.filter(|p| *p >= 0);
    match d.conv {
        's' | 'p' => {
            let s = match (&d.arg, d.conv) {
                (Arg::Str(s), 's') => s.clone(),
                (a, 's') => a.value().to_s(store),
                (a, _) => a.value().inspect(store),
            };
            let s = match prec {
                Some(p) => s.chars().take(p as usize).collect(),
                None => s,
            };
            pad(s, width, minus)
        }
        'c' => {
            let s: String = match &d.arg {
                Arg::Int(i) => char::from_u32(i.to_u32().unwrap()).unwrap().to_string(),
                Arg::Str(s) => s.chars().take(1).collect(),
                _ => unreachable!(),
            };
            pad(s, width, minus)
        }
        'f' | 'e' | 'E' | 'g' | 'G' | 'a' | 'A' => {
            let f = match &d.arg {
                Arg::Float(f) => *f,
                // whole numbers are written exactly
                Arg::Int(i) if d.conv == 'f' => {
                    let p = prec.unwrap_or(6) as usize;
                    let mut digits = i.abs().to_string();
                    if p > 0 {
                        digits += ".";
                        digits += &"0".repeat(p);
                    }
                    let sign = sign(d, i.is_negative());
                    if d.zero && !minus {
                        let n = (width as usize).saturating_sub(sign.len() + digits.len());
                        return format!("{sign}{}{digits}", "0".repeat(n));
                    }
                    return pad(format!("{sign}{digits}"), width, minus);
                }
                Arg::Int(i) => i.to_f64().unwrap(),
                _ => unreachable!(),
            };
            let neg = f.is_sign_negative() && !f.is_nan();
            if !f.is_finite() {
                return pad(format!("{}{}", sign(d, neg), if f.is_nan() { "NaN" } else { "Inf" }), width, minus);
            }
            if !matches!(d.conv, 'a' | 'A') {
                let prec = prec.unwrap_or(6);
                if matches!(d.conv, 'g' | 'G') && d.sharp {
                    // the C library here drops digits of numbers rounded up to a power of ten
                    let prec = prec.max(1);
                    let e = c_float(d, 'e', 0, true, prec - 1, f);
                    let exp: i64 = e.trim_end().rsplit('e').next().unwrap().parse().unwrap();
                    return if (-4..prec).contains(&exp) {
                        c_float(d, 'f', width, minus, prec - 1 - exp, f)
                    } else {
                        c_float(d, if d.conv == 'g' { 'e' } else { 'E' }, width, minus, prec - 1, f)
                    };
                }
                return c_float(d, d.conv, width, minus, prec, f);
            }
            let (exp, bits) = mantissa(f.abs());
            let mut all = bits | if f == 0.0 { 0 } else { 1 << 52 };
            let mut digits = 13;
            if let Some(p) = prec
                && p < 13
            {
                all = (all + (1 << (51 - 4 * p))) >> (52 - 4 * p);
                digits = p as usize;
            }
            let mut s = format!("{:x}", all & ((1 << (4 * digits)) - 1));
            s = "0".repeat(digits - if digits == 0 { 0 } else { s.len() }) + if digits == 0 { "" } else { &s };
            match prec {
                None => s = s.trim_end_matches('0').to_string(),
                Some(p) => s += &"0".repeat(p as usize - digits),
            }
            let lead = all >> (4 * digits);
            let dot = if s.is_empty() && !d.sharp { "" } else { "." };
            let mut body = format!("{lead}{dot}{s}p{exp:+}");
            let mut prefix = "0x";
            if d.conv == 'A' {
                body = body.to_uppercase();
                prefix = "0X";
            }
            let sign = sign(d, neg);
            if d.zero && !minus {
                let n = (width as usize).saturating_sub(sign.len() + 2 + body.len());
                return format!("{sign}{prefix}{}{body}", "0".repeat(n));
            }
            pad(format!("{sign}{prefix}{body}"), width, minus)
        }
        _ => {
            let n = match &d.arg {
                Arg::Int(i) | Arg::Text(_, i) => i.clone(),
                Arg::Float(f) => <BigInt as num::FromPrimitive>::from_f64(*f).unwrap(),
                _ => unreachable!(),
            };
            let base = match d.conv {
                'x' | 'X' => 16u32,
                'o' => 8,
                'b' | 'B' => 2,
                _ => 10,
            };
            let neg = n.is_negative();
            let dots = neg && base != 10 && !d.plus && !d.space;
            let fill = if dots { char::from_digit(base - 1, base).unwrap() } else { '0' };
            let mut digits = if dots {
                // as many digits as it takes for the first one to be the sign
                let bits = base.trailing_zeros() as u64;
                let mut len = (n.bits() / bits).max(1);
                while (BigInt::one() << (bits * (len - 1))) + &n < BigInt::zero() {
                    len += 1;
                }
                ((BigInt::one() << (bits * len)) + &n).to_str_radix(base)
            } else {
                n.abs().to_str_radix(base)
            };
            let mut prefix = match d.conv {
                _ if !d.sharp => "",
                'x' => "0x",
                'X' => "0X",
                'b' => "0b",
                'B' => "0B",
                'o' => "0",
                _ => "",
            };
            let sign = if dots {
                ".."
            } else {
                sign(d, neg)
            };
            let least = prec.map(|p| p - if dots { 2 } else { 0 });
            if prec == Some(0) && digits == "0" {
                digits.clear();
            }
            if d.zero && !minus && prec.is_none() {
                let p = if base == 8 && (dots || n.is_zero()) || n.is_zero() { "" } else { prefix };
                while ((sign.len() + p.len() + digits.len()) as i64) < width {
                    digits.insert(0, fill);
                }
            } else if let Some(p) = least {
                while (digits.len() as i64) < p {
                    digits.insert(0, fill);
                }
            }
            if base == 8 {
                // the prefix is a leading zero, unless there is one
                if dots || (digits.starts_with('0') && (prec.is_some() || n.is_zero())) {
                    prefix = "";
                }
            } else if n.is_zero() {
                prefix = "";
            }
            if d.conv == 'X' {
                digits = digits.to_uppercase();
            }
            if dots {
                pad(format!("{prefix}..{digits}"), width, minus)
            } else {
                pad(format!("{sign}{prefix}{digits}"), width, minus)
            }
        }
    }
}

fn flags(g: &mut Src, d: &Dir) -> String {
    let mut f: Vec<char> = [(d.zero, '0'), (d.minus, '-'), (d.plus, '+'), (d.space, ' '), (d.sharp, '#')]
        .iter()
        .filter(|(on, _)| *on)
        .map(|(_, c)| *c)
        .collect();
    for i in (1..f.len()).rev() {
        f.swap(i, g.usize(i + 1));
    }
    f.into_iter().collect()
}

fn run(fmt: Value, args: &[Value]) -> Result<Value> {
    let mut globals = Globals::new_test();
    let inner = fmt.as_rstring_inner();
    let ctx = executor::format::negotiate_format(&globals.store, inner, args)?;
    let s = ctx.view_owned(inner)?;
    let out = Executor.format_by_args(&mut globals, &s, args, ctx)?;
    Ok(ctx.finish(&out))
}

/// How the directives of a format refer to their arguments.
#[derive(Clone, Copy, PartialEq, Debug)]
enum By {
    Turn,
    Number,
    Name,
}

struct Written {
    fmt: String,
    args: Vec<Value>,
    expected: String,
    dirs: usize,
    plain: bool,
}

fn write(g: &mut Src, by: By, max: u64) -> Written {
    let store = Store;
    let (mut fmt, mut expected) = (String::new(), String::new());
    let mut args: Vec<Value> = vec![];
    let mut named: Vec<(Value, Value)> = vec![];
    let (mut dirs, mut plain) = (0, true);
    // arguments nobody refers to yet
    if by == By::Number {
        for _ in 0..g.below(3) {
            args.push(Value::integer(g.below(9) as i64));
        }
    }
    let n = 1 + g.below(max);
    for _ in 0..n {
        if g.chance(1, 3) {
            let lit = text(g, 5);
            fmt += &lit.replace('%', "%%");
            expected += &lit;
        }
        let mut d = dir(g);
        if by == By::Name {
            (d.star_width, d.star_prec) = (false, false);
            d.width = d.width.map(i64::abs).filter(|w| *w > 0);
            d.prec = d.prec.filter(|p| *p >= 0);
        }
        dirs += 1;
        if d.zero || d.minus || d.plus || d.space || d.sharp || d.width.is_some() || d.prec.is_some() {
            plain = false;
        }
        fmt.push('%');
        let fl = flags(g, &d);
        match by {
            By::Turn => {
                fmt += &fl;
                if let Some(w) = d.width {
                    if d.star_width {
                        fmt.push('*');
                        args.push(Value::integer(w));
                    } else {
                        fmt += &w.to_string();
                    }
                }
                if let Some(p) = d.prec {
                    fmt.push('.');
                    if d.star_prec {
                        fmt.push('*');
                        args.push(Value::integer(p));
                    } else if p != 0 || g.bool() {
                        fmt += &p.to_string();
                    }
                }
                args.push(d.arg.value());
                fmt.push(d.conv);
            }
            By::Number => {
                let mut place = |v: Value| {
                    args.push(v);
                    args.len()
                };
                let k = place(d.arg.value());
                let first = g.bool();
                if first {
                    fmt += &format!("{k}$");
                }
                fmt += &fl;
                if !first {
                    fmt += &format!("{k}$");
                }
                if let Some(w) = d.width {
                    if d.star_width {
                        let k = place(Value::integer(w));
                        fmt += &format!("*{k}$");
                    } else {
                        fmt += &w.to_string();
                    }
                }
                if let Some(p) = d.prec {
                    fmt.push('.');
                    if d.star_prec {
                        let k = place(Value::integer(p));
                        fmt += &format!("*{k}$");
                    } else {
                        fmt += &p.to_string();
                    }
                }
                fmt.push(d.conv);
            }
            By::Name => {
                let key = format!("k{}", named.len());
                named.push((Value::symbol_from_str(&key), d.arg.value()));
                let width = d.width.map(|w| w.to_string()).unwrap_or_default();
                let prec = d.prec.map(|p| format!(".{p}")).unwrap_or_default();
                if d.conv == 's' && g.bool() {
                    fmt += &format!("{fl}{width}{prec}{{{key}}}");
                } else {
                    let key = format!("<{key}>");
                    match g.below(4) {
                        0 => fmt += &format!("{key}{fl}{width}{prec}"),
                        1 => fmt += &format!("{fl}{key}{width}{prec}"),
                        2 => fmt += &format!("{fl}{width}{key}{prec}"),
                        _ => fmt += &format!("{fl}{width}{prec}{key}"),
                    }
                    fmt.push(d.conv);
                }
            }
        }
        expected += &reference(&d, &store);
    }
    if by == By::Name {
        for i in (1..named.len()).rev() {
            named.swap(i, g.usize(i + 1));
        }
        args.push(Value::new(Kind::Hash(named), None));
    }
    Written { fmt, args, expected, dirs, plain }
}

fn show(r: &Result<Value>) -> String {
    match r {
        Ok(v) => format!("{:?}", String::from_utf8_lossy(v.as_rstring_inner().as_bytes())),
        Err(e) => format!("{e:?}"),
    }
}

fn directives(g: &mut Src, cx: &mut Cx) -> R {
    let by = g.pick(&[By::Turn, By::Turn, By::Number, By::Name]);
    let max = if g.chance(1, 3) { 6 } else { 1 };
    let w = write(g, by, max);
    let fmt = Value::string(w.fmt.clone());
    note!(cx, "{:?} % {:?}", w.fmt, w.args);
    cx.label(["by turn", "by number", "by name"][by as usize]);
    if !w.plain {
        cx.nontrivial();
    }
    let r = run(fmt, &w.args);
    ensure!(
        matches!(&r, Ok(v) if v.as_rstring_inner().as_bytes() == w.expected.as_bytes()),
        "{:?} % {:?}: got {}, expected {:?}",
        w.fmt, w.args, show(&r), w.expected
    );
    same!(r.unwrap().as_rstring_inner().encoding(), Encoding::Utf8, "encoding of the result");
    sweep_all();
    Ok(())
}

/// Formats that must be refused, each for one reason.
fn refused(g: &mut Src, cx: &mut Cx) -> R {
    let by = g.pick(&[By::Turn, By::Turn, By::Number, By::Name]);
    let mut w = write(g, by, 3);
    let (mut key, mut range) = (false, false);
    let what = match (g.below(4), by) {
        (0, By::Turn | By::Number) => {
            w.args.pop();
            "an argument is missing"
        }
        (0, By::Name) => {
            let v = w.args.pop().unwrap();
            let RV::Hash(h) = v.unpack() else { unreachable!() };
            let mut h = h.to_vec();
            h.remove(g.usize(h.len()));
            w.args.push(Value::new(Kind::Hash(h), None));
            key = true;
            "a name is missing"
        }
        (1, _) => {
            w.fmt += match by {
                By::Turn => "%1$d",
                By::Number => "%d",
                By::Name => g.pick(&["%d", "%1$d"]),
            };
            match by {
                By::Turn => {}
                By::Number => w.args.push(Value::integer(1)),
                By::Name => w.args.insert(0, Value::integer(1)),
            }
            "two ways to refer to arguments"
        }
        (2, By::Turn) if g.bool() => {
            w.fmt += g.pick(&["%d", "%x", "%08.3b", "%+o"]);
            w.args.push(Value::float(g.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY])));
            range = true;
            "there is no such integer"
        }
        (2, _) => {
            w.fmt += g.pick(&["%", "%5", "%-", "%.3", "%+#", "%08.2"]);
            "it ends inside a directive"
        }
        _ => {
            w.fmt += g.pick(&["%y", "%5k", "%-.3z", "%!", "%Z", "%,d", "%ld", "%hd"]);
            if by == By::Turn {
                w.args.push(Value::integer(1));
            }
            "there is no such conversion"
        }
    };
    note!(cx, "{:?} % {:?}: {what}", w.fmt, w.args);
    cx.label(what);
    if w.dirs > 1 {
        cx.nontrivial();
    }
    let r = run(Value::string(w.fmt.clone()), &w.args);
    let ok = match &r {
        Err(MonorubyErr::Key(_)) => key,
        Err(MonorubyErr::Argument(_)) => !key && !range,
        Err(MonorubyErr::Range(_) | MonorubyErr::FloatDomain(_)) => range,
        _ => false,
    };
    ensure!(ok, "{:?} % {:?} although {what}: got {}", w.fmt, w.args, show(&r));
    sweep_all();
    Ok(())
}

/// Strings in other encodings, and broken ones, come through byte by byte.
fn encodings(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(&[Encoding::Ascii8, Encoding::EucJp, Encoding::Sjis(0), Encoding::Iso8859(1), Encoding::Utf8]);
    // one character each, in that encoding
    let chars: &[&[u8]] = match enc {
        Encoding::EucJp => &[b"a", b" ", b"\xa4\xa2", b"\xb0\xa1", b"\x8e\xb1", b"\x8f\xab\xb1"],
        Encoding::Sjis(_) => &[b"a", b" ", b"\x82\xa0", b"\x88\x9f", b"\xb1", b"\x83\x5c"],
        Encoding::Utf8 => &[b"a", b"\x80", b"\xe3\x81", b"\xff", b" "],
        _ => &[b"a", b" ", b"\x80", b"\xff", b"\xe3", b"\x81"],
    };
    let single = matches!(enc, Encoding::Ascii8 | Encoding::Iso8859(_));
    let (mut fmt, mut expected) = (vec![], vec![]);
    let mut args = vec![];
    let mut other = false;
    for _ in 0..g.range(1, 3) {
        if g.chance(1, 3) {
            fmt.extend_from_slice(b"ab");
            expected.extend_from_slice(b"ab");
        }
        let s: Vec<&[u8]> = (0..g.len(6)).map(|_| g.pick(chars)).collect();
        let s: Vec<u8> = if enc == Encoding::Utf8 && !s.is_empty() { [&s.concat()[..], b"\xff"].concat() } else { s.concat() };
        other |= !s.is_ascii();
        let mut out = s.clone();
        fmt.push(b'%');
        if single {
            if g.bool() {
                let (w, minus) = (g.range(1, 12), g.bool());
                let mut p = g.bool().then(|| g.usize(8));
                fmt.extend_from_slice(format!("{}{w}", if minus { "-" } else { "" }).as_bytes());
                if let Some(p) = p.take() {
                    fmt.extend_from_slice(format!(".{p}").as_bytes());
                    out.truncate(p);
                }
                let n = w.saturating_sub(out.len());
                if minus {
                    out.extend(vec![b' '; n]);
                } else {
                    out.splice(0..0, vec![b' '; n]);
                }
            }
        }
        fmt.push(b's');
        expected.extend(out);
        args.push(Value::string_from_inner(RStringInner::from_encoding(&s, enc)));
    }
    let fmt_enc = if g.bool() { enc } else { Encoding::Utf8 };
    let f = Value::string_from_inner(RStringInner::from_encoding(&fmt, fmt_enc));
    note!(cx, "{:?} ({fmt_enc:?}) % {args:?} ({enc:?})", String::from_utf8_lossy(&fmt));
    cx.label(match enc {
        Encoding::Utf8 => "broken UTF-8",
        _ if single => "one byte per character",
        _ => "several bytes per character",
    });
    if other {
        cx.nontrivial();
    }
    let r = run(f, &args);
    ensure!(
        matches!(&r, Ok(v) if v.as_rstring_inner().as_bytes() == expected),
        "{:?} ({fmt_enc:?}) % {args:?} ({enc:?}): got {}, expected {:?}",
        String::from_utf8_lossy(&fmt), match &r { Ok(v) => format!("{v:?}"), Err(e) => format!("{e:?}") }, expected
    );
    if other {
        same!(r.unwrap().as_rstring_inner().encoding(), enc, "encoding of the result");
    }
    sweep_all();
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C38",
    rule: "a directive has a flag, a width or a precision; for refused formats there are at least two directives; for encodings a string is not ASCII",
    assumptions: &[
        "values, their conversions to text and method lookup are stand-ins; big integers come from a schoolbook implementation",
        "%f, %e and %g of a Float are compared with the C library",
        "half-way cases of %a, fractions under integer directives, and widths for multibyte encodings other than UTF-8 are left out",
    ],
    level: "exploration",
    suites: &[
        Suite { name: "directives", cases: 2_000_000, run: directives },
        Suite { name: "refused", cases: 300_000, run: refused },
        Suite { name: "encodings", cases: 300_000, run: encodings },
    ],
    known: &[],
};
