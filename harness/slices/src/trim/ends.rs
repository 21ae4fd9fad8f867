//! The expected outcome is computed over lists of characters.

use super::*;
use builtins::string;

const ENCS: &[Encoding] = &[
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::UsAscii,
    Encoding::Ascii8,
    Encoding::Iso8859(1),
    Encoding::EucJp,
    Encoding::Sjis(0),
    Encoding::Utf16Le,
    Encoding::Utf16Be,
    Encoding::Utf32Le,
    Encoding::Utf32Be,
];

type Char = Vec<u8>;

fn is_wide(enc: Encoding) -> bool {
    !ranges::ascii_compatible(enc)
}

/// A character of ASCII in an encoding.
fn ascii(c: u8, enc: Encoding) -> Char {
    match enc {
        Encoding::Utf16Le => vec![c, 0],
        Encoding::Utf16Be => vec![0, c],
        Encoding::Utf32Le => vec![c, 0, 0, 0],
        Encoding::Utf32Be => vec![0, 0, 0, c],
        _ => vec![c],
    }
}

fn as_ascii(c: &[u8], enc: Encoding) -> Option<u8> {
    (0..0x80).find(|a| ascii(*a, enc) == c)
}

fn one(g: &mut Src, enc: Encoding, plain: &[u8]) -> Char {
    if !is_wide(enc) {
        return letter(g, enc, plain);
    }
    if g.chance(3, 5) {
        return ascii(g.pick(plain), enc);
    }
    // characters with the byte of a space, of a line feed and of nothing at either end
    let n: u16 = g.pick(&[0x3042, 0x2020, 0x0a20, 0x200a, 0x2000, 0x0100, 0x0d0a]);
    match enc {
        Encoding::Utf16Le => n.to_le_bytes().to_vec(),
        Encoding::Utf16Be => n.to_be_bytes().to_vec(),
        Encoding::Utf32Le => (n as u32).to_le_bytes().to_vec(),
        _ => (n as u32).to_be_bytes().to_vec(),
    }
}

fn run(g: &mut Src, enc: Encoding, plain: &[u8], max: usize) -> Vec<Char> {
    (0..g.len(max)).map(|_| one(g, enc, plain)).collect()
}

/// A text with something of interest at its ends, long enough to be shared at times.
fn text(g: &mut Src, enc: Encoding, ends: &[u8]) -> Vec<Char> {
    let e = if g.chance(1, 3) && !is_wide(enc) { Encoding::UsAscii } else { enc };
    let mut t = run(g, e, ends, 4);
    if g.chance(1, 3) {
        let n = g.range(10, 40);
        let c = one(g, e, b"ab");
        t.extend((0..n).map(|_| c.clone()));
    }
    t.extend(run(g, e, b"abc -\\", 4));
    t.extend(run(g, e, ends, 5));
    t
}

/// Strings of ASCII may be in any encoding beside another.
fn arg(g: &mut Src, b: &[u8], enc: Encoding) -> Value {
    let enc = if b.is_ascii() && !is_wide(enc) && g.chance(1, 3) { g.pick(&[Encoding::Utf8, Encoding::UsAscii, Encoding::Ascii8]) } else { enc };
    string(b, enc)
}

/// A string, which may have been cut out of a longer one.
fn receiver(g: &mut Src, b: &[u8], enc: Encoding) -> Value {
    if !g.chance(1, 3) {
        return string(b, enc);
    }
    let c = ascii(b'x', enc);
    let whole = [c.as_slice(), b, c.as_slice()].concat();
    string_substring(string(&whole, enc), c.len(), c.len() + b.len())
}

/// The outcome of a method: a string by itself when not `bang`, and the receiver or nil when so.
fn agree(g: &mut Src, cx: &mut Cx, what: &str, recv: Value, before: &[u8], enc: Encoding, r: Result<Value>, out: &[u8], bang: bool) -> R {
    note!(cx, "{what} -> {}", outcome(&r));
    let v = match r {
        Ok(v) => v,
        Err(e) => fail!("{what}: refused with {e:?}"),
    };
    if bang && out == before {
        ensure!(v.is_nil(), "{what}: not nil though nothing changed");
        return holds(recv, before, enc);
    }
    if let Err(e) = holds(v, out, enc) {
        fail!("{what}: {e:?}");
    }
    if bang {
        ensure!(v == recv, "{what}: gave another string");
        return Ok(());
    }
    ensure!(v != recv, "{what}: gave the string itself");
    holds(recv, before, enc)?;
    // neither is affected by what becomes of the other
    let add = ascii(b'+', enc);
    let (mut first, first_was, second, second_was) = if g.bool() { (v, out, recv, before) } else { (recv, before, v, out) };
    first.as_rstring_inner_mut().extend_from_slice_checked(&add).ok();
    holds(first, &[first_was, &add].concat(), enc)?;
    holds(second, second_was, enc)
}

fn strips(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let t = text(g, enc, b" \n\r\t\0\x0b\x0c\x1c\x08\x0ea");
    let before = t.concat();
    let (f, left, right, bang, name): (Method, bool, bool, bool, &str) = g.pick(&[
        (string::strip as Method, true, true, false, "strip"),
        (string::lstrip, true, false, false, "lstrip"),
        (string::rstrip, false, true, false, "rstrip"),
        (string::strip_, true, true, true, "strip!"),
        (string::lstrip_, true, false, true, "lstrip!"),
        (string::rstrip_, false, true, true, "rstrip!"),
    ]);
    let space = |c: &Char| matches!(as_ascii(c, enc), Some(b' ' | b'\n' | b'\r' | b'\t' | 0 | 0x0b | 0x0c));
    let mut kept: &[Char] = &t;
    while left && kept.first().is_some_and(space) {
        kept = &kept[1..];
    }
    while right && kept.last().is_some_and(space) {
        kept = &kept[..kept.len() - 1];
    }
    if !kept.is_empty() && kept.len() < t.len() {
        cx.nontrivial();
    }
    cx.label(name);
    let recv = receiver(g, &before, enc);
    let what = format!("{} ({enc:?}) {name}", show(&before));
    let r = call(f, recv, &[]);
    agree(g, cx, &what, recv, &before, enc, r, &kept.concat(), bang)?;
    sweep_all();
    Ok(())
}

fn chomps(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let t = text(g, enc, b"\n\n\r\rab");
    let before = t.concat();
    let bang = g.bool();
    // what is to be removed: the default, nothing, empty lines, or a separator
    let mode = g.below(4);
    let is = |i: usize, c: u8| as_ascii(&t[i], enc) == Some(c);
    let mut sep = vec![];
    let mut n = t.len();
    match mode {
        0 => {}
        1 => {}
        2 => {
            while n > 0 && is(n - 1, b'\n') {
                n -= 1;
                if n > 0 && is(n - 1, b'\r') {
                    n -= 1;
                }
            }
        }
        _ => {
            sep = if g.chance(2, 3) && !t.is_empty() {
                let k = g.range(1, t.len().min(3));
                t[t.len() - k..].to_vec()
            } else {
                let mut s = run(g, enc, b"\n\rab\\", 2);
                s.push(one(g, enc, b"\n\rab\\"));
                s
            };
            if t.ends_with(&sep) {
                n -= sep.len();
            }
        }
    }
    if mode == 0 || sep == [ascii(b'\n', enc)] {
        n = t.len();
        if n > 0 && is(n - 1, b'\n') {
            n -= 1;
            if n > 0 && is(n - 1, b'\r') {
                n -= 1;
            }
        } else if n > 0 && is(n - 1, b'\r') {
            n -= 1;
        }
    }
    let a = match mode {
        0 => None,
        1 => Some(Value::nil()),
        2 => Some(string(b"", g.pick(&[enc, Encoding::Utf8]))),
        _ => Some(arg(g, &sep.concat(), enc)),
    };
    if n > 0 && n < t.len() {
        cx.nontrivial();
    }
    cx.label(["default", "nil", "paragraph", "separator"][mode as usize]);
    let recv = receiver(g, &before, enc);
    let what = format!("{} ({enc:?}) chomp{} {}", show(&before), if bang { "!" } else { "" }, match mode {
        0 => String::new(),
        1 => "nil".into(),
        _ => show(&sep.concat()),
    });
    let r = call_opt(if bang { string::chomp_ } else { string::chomp }, recv, vec![a]);
    agree(g, cx, &what, recv, &before, enc, r, &t[..n].concat(), bang)?;
    sweep_all();
    Ok(())
}

fn pads(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let t = text(g, enc, b"a \n");
    let before = t.concat();
    // padding in characters of another encoding is only for a text of ASCII
    let of = if before.is_ascii() && enc == Encoding::UsAscii && g.bool() { Encoding::Utf8 } else { enc };
    let pad = if is_wide(enc) || g.chance(2, 3) {
        let mut p = run(g, of, b"xyz", 4);
        p.push(one(g, of, b"xyz"));
        Some(p)
    } else {
        None
    };
    let width = match g.weighted(&[6, 1, 1]) {
        0 => t.len() as i64 + g.range(0, 12) as i64 - 1,
        1 => g.range(0, 5) as i64 - 3,
        _ => t.len() as i64 + g.range(20, 80) as i64,
    };
    let missing = (width.max(0) as usize).saturating_sub(t.len());
    let (f, head, name): (Method, usize, &str) = g.pick(&[
        (string::ljust as Method, 0, "ljust"),
        (string::rjust, missing, "rjust"),
        (string::center, missing / 2, "center"),
    ]);
    let p = pad.clone().unwrap_or(vec![b" ".to_vec()]);
    let fill = |n: usize| (0..n).flat_map(|i| p[i % p.len()].clone()).collect::<Vec<u8>>();
    let out = [fill(head), before.clone(), fill(missing - head)].concat();
    let to = if enc == Encoding::UsAscii && missing > 0 && pad.is_some() && !p.concat().is_ascii() { of } else { enc };
    if missing > p.len() {
        cx.nontrivial();
    }
    cx.label(name);
    let recv = receiver(g, &before, enc);
    let mut args = vec![Some(Value::integer(width))];
    args.push(pad.as_ref().map(|p| arg(g, &p.concat(), of)));
    let what = format!("{} ({enc:?}) {name} {width}, {:?}", show(&before), pad.map(|p| show(&p.concat())));
    let r = call_opt(f, recv, args);
    note!(cx, "{what} -> {}", outcome(&r));
    match r {
        Ok(v) => {
            if let Err(e) = holds(v, &out, to) {
                fail!("{what}: {e:?}");
            }
            ensure!(v != recv, "{what}: gave the string itself");
        }
        Err(e) => fail!("{what}: refused with {e:?}"),
    }
    holds(recv, &before, enc)?;
    sweep_all();
    Ok(())
}

fn prefixes(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let t = text(g, enc, b"ab\\\n");
    let before = t.concat();
    let end = g.bool();
    let part = |g: &mut Src| -> Vec<u8> {
        let k = g.range(0, t.len().min(4));
        let mut p: Vec<Char> = if end { t[t.len() - k..].to_vec() } else { t[..k].to_vec() };
        match g.weighted(&[4, 1, 1, 2]) {
            0 => p.concat(),
            1 => {
                p.push(one(g, enc, b"ab\\"));
                p.concat()
            }
            2 if !p.is_empty() => {
                let i = g.usize(p.len());
                p[i] = one(g, enc, b"ab\\");
                p.concat()
            }
            2 => p.concat(),
            // a part that ends or starts within a character
            _ => {
                let k = g.range(0, before.len().min(6));
                if end { before[before.len() - k..].to_vec() } else { before[..k].to_vec() }
            }
        }
    };
    let recv = receiver(g, &before, enc);
    let is = |p: &[u8]| match end {
        true => (0..=t.len()).any(|i| t[i..].concat() == p),
        false => (0..=t.len()).any(|i| t[..i].concat() == p),
    };
    if end || g.bool() {
        let parts: Vec<Vec<u8>> = (0..g.range(0, 3)).map(|_| part(g)).collect();
        let args: Vec<Value> = parts.iter().map(|p| if is(p) { arg(g, p, enc) } else { string(p, enc) }).collect();
        let expect = parts.iter().any(|p| is(p));
        let what = format!("{} ({enc:?}) {} {:?}", show(&before), if end { "end_with?" } else { "start_with?" }, parts.iter().map(|s| show(s)).collect::<Vec<_>>());
        if parts.iter().any(|p| !p.is_empty()) {
            cx.nontrivial();
        }
        cx.label(if expect { "found" } else { "not found" });
        let r = call_rest(if end { string::end_with } else { string::start_with }, recv, &args);
        note!(cx, "{what} -> {}", outcome(&r));
        match r {
            Ok(v) => ensure!(matches!(v.unpack(), RV::Bool(b) if b == expect), "{what}: {v:?}, expected {expect}"),
            Err(e) => fail!("{what}: refused with {e:?}"),
        }
        holds(recv, &before, enc)?;
    } else {
        let p = part(g);
        let bang = g.bool();
        let out = if is(&p) { &before[p.len()..] } else { &before[..] };
        if out.len() < before.len() {
            cx.nontrivial();
        }
        cx.label("delete_prefix");
        let what = format!("{} ({enc:?}) delete_prefix{} {}", show(&before), if bang { "!" } else { "" }, show(&p));
        let a = if is(&p) { arg(g, &p, enc) } else { string(&p, enc) };
        let r = call(if bang { string::delete_prefix_ } else { string::delete_prefix }, recv, &[a]);
        agree(g, cx, &what, recv, &before, enc, r, out, bang)?;
    }
    sweep_all();
    Ok(())
}

pub const PROP: pbt::Prop = pbt::Prop {
    id: "C41",
    rule: "a case counts when characters are removed and others left, when more than one round of the padding is used, or when something is looked for at an end",
    assumptions: &["the separator of records is a line feed", "strings are valid in their encoding"],
    level: "exploration",
    suites: &[
        pbt::Suite { name: "strip", cases: 500_000, run: strips },
        pbt::Suite { name: "chomp", cases: 500_000, run: chomps },
        pbt::Suite { name: "pad", cases: 300_000, run: pads },
        pbt::Suite { name: "prefix", cases: 400_000, run: prefixes },
    ],
    known: &[],
};
