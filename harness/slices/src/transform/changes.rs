//! References written from the rules, over lists of characters.

use super::*;
use builtins::string;
use std::cmp::Ordering;

const ENCS: &[Encoding] = &[
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::UsAscii,
    Encoding::Ascii8,
    Encoding::Iso8859(1),
    Encoding::EucJp,
    Encoding::Sjis(0),
];

/// What a method gives: the string when it makes a new one, the receiver or nil when it changes it.
fn agree(cx: &mut Cx, what: &str, recv: Value, before: &[u8], enc: Encoding, r: Result<Value>, out: &[u8], bang: bool, nil: bool) -> R {
    note!(cx, "{what} -> {}", outcome(&r));
    let v = match r {
        Ok(v) => v,
        Err(e) => fail!("{what}: refused with {e:?}"),
    };
    if bang && nil && out == before {
        ensure!(v.is_nil(), "{what}: not nil though nothing changed");
        return holds(recv, before, enc);
    }
    if let Err(e) = holds(v, out, enc) {
        fail!("{what}: {e:?}");
    }
    if bang {
        ensure!(v == recv, "{what}: gave another string");
        return Ok(());
    }
    ensure!(v != recv, "{what}: gave the string itself");
    holds(recv, before, enc)
}

/// Characters with their upper, lower and folded case; those without a case are all the same.
const CASES: &[(char, &str, &str)] = &[
    ('é', "É", "é"),
    ('É', "É", "é"),
    ('ÿ', "Ÿ", "ÿ"),
    ('Ÿ', "Ÿ", "ÿ"),
    ('Σ', "Σ", "σ"),
    ('σ', "Σ", "σ"),
    ('я', "Я", "я"),
    ('Я', "Я", "я"),
    ('ß', "SS", "ß"),
    ('ﬁ', "FI", "ﬁ"),
    ('ﬃ', "FFI", "ﬃ"),
    ('ı', "I", "ı"),
    ('İ', "İ", "i\u{307}"),
    ('あ', "あ", "あ"),
    ('😀', "😀", "😀"),
    ('𐐀', "𐐀", "𐐨"),
    ('𐐨', "𐐀", "𐐨"),
    ('×', "×", "×"),
];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Full,
    Ascii,
    Turkic,
    Fold,
}

fn map(c: char, upper: bool, mode: Mode) -> String {
    if mode == Mode::Turkic {
        match (c, upper) {
            ('i', true) => return "İ".into(),
            ('I', false) => return "ı".into(),
            ('İ', false) => return "i".into(),
            _ => {}
        }
    }
    if c.is_ascii() {
        let c = if upper { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
        return c.to_string();
    }
    if mode == Mode::Ascii {
        return c.to_string();
    }
    if mode == Mode::Fold && c == 'ß' {
        return "ss".into();
    }
    // the letters of Latin-1
    match c {
        'µ' | 'ÿ' | '×' | '÷' => {}
        'à'..='þ' if upper => return ((c as u8 - 0x20) as char).to_string(),
        'À'..='Þ' if !upper => return ((c as u8 + 0x20) as char).to_string(),
        _ => {}
    }
    match CASES.iter().find(|(x, ..)| *x == c) {
        Some((_, u, l)) => if upper { u } else { l }.to_string(),
        None => c.to_string(),
    }
}

fn encode(s: &str, enc: Encoding) -> Vec<u8> {
    match enc {
        Encoding::Utf16Le => s.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(),
        Encoding::Utf16Be => s.encode_utf16().flat_map(|u| u.to_be_bytes()).collect(),
        Encoding::Utf32Le => s.chars().flat_map(|u| (u as u32).to_le_bytes()).collect(),
        Encoding::Utf32Be => s.chars().flat_map(|u| (u as u32).to_be_bytes()).collect(),
        _ => s.as_bytes().to_vec(),
    }
}

fn cases(g: &mut Src, cx: &mut Cx) -> R {
    let op = g.below(4);
    let mode = match g.weighted(&[4, 2, 2, 1]) {
        0 => Mode::Full,
        1 => Mode::Ascii,
        2 => Mode::Turkic,
        _ if op == 1 => Mode::Fold,
        _ => Mode::Full,
    };
    let options: &[&str] = match mode {
        Mode::Full => g.pick(&[&[] as &[&str], &[], &["lithuanian"]]),
        Mode::Ascii => &["ascii"],
        Mode::Turkic => g.pick(&[&["turkic"] as &[&str], &["turkic", "lithuanian"]]),
        Mode::Fold => &["fold"],
    };
    let enc = g.pick(&[
        Encoding::Utf8,
        Encoding::Utf8,
        Encoding::Utf8,
        Encoding::UsAscii,
        Encoding::Utf16Le,
        Encoding::Utf16Be,
        Encoding::Utf32Le,
        Encoding::Utf32Be,
        Encoding::EucJp,
        Encoding::Sjis(0),
        Encoding::Ascii8,
        Encoding::Iso8859(1),
    ]);
    let unicode = matches!(enc, Encoding::Utf8 | Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be);
    let plain: &[u8] = b"abIizAZ@[`{0 \n";
    let ascii = g.bool();
    let n = if g.chance(1, 6) { g.range(20, 70) } else { g.len(8) };
    // texts as their characters, those of ASCII being told apart
    let mut chars: Vec<(Vec<u8>, Option<char>)> = vec![];
    for _ in 0..n {
        if unicode && !ascii && g.bool() {
            let c = g.pick(CASES).0;
            if mode == Mode::Fold && !c.is_ascii() && matches!(c, 'ﬁ' | 'ﬃ' | 'İ' | 'ı') {
                continue;
            }
            // surrogates are counted by their units here
            if matches!(enc, Encoding::Utf16Le | Encoding::Utf16Be) && c as u32 > 0xffff {
                continue;
            }
            chars.push((encode(&c.to_string(), enc), Some(c)));
        } else if unicode {
            let c = g.pick(plain) as char;
            chars.push((encode(&c.to_string(), enc), Some(c)));
        } else {
            let b = match enc {
                Encoding::Iso8859(_) if !ascii && g.bool() => vec![g.pick(b"\xe9\xc9\xe0\xc0\xde\xfe\xd7\xf7\xff\xb5\xa0")],
                _ => letter(g, if ascii { Encoding::UsAscii } else { enc }, plain),
            };
            let latin = matches!(enc, Encoding::Iso8859(_)) && matches!(mode, Mode::Full | Mode::Fold);
            let c = (b.len() == 1 && (b[0] < 0x80 || latin)).then(|| b[0] as char);
            chars.push((b, c));
        }
    }
    let before: Vec<u8> = chars.iter().flat_map(|c| c.0.clone()).collect();
    // an ASCII string has no place for the letters of Turkish
    if mode == Mode::Turkic && !unicode {
        return Ok(());
    }
    let mut out = vec![];
    for (i, (b, c)) in chars.iter().enumerate() {
        // what Latin-1 has no other case for
        let Some(c) = c.filter(|c| unicode || *c != 'ÿ') else {
            out.extend(b);
            continue;
        };
        let s = match op {
            0 => map(c, true, mode),
            1 => map(c, false, mode),
            2 if i == 0 => {
                // of several letters only the first is a capital
                let s = map(c, true, mode);
                let mut s = s.chars();
                let first = s.next().unwrap();
                first.to_string() + &s.map(|c| map(c, false, mode)).collect::<String>()
            }
            2 => map(c, false, mode),
            _ => {
                let lower = map(c, false, Mode::Full) == c.to_string() && map(c, true, Mode::Full) != c.to_string();
                map(c, lower, mode)
            }
        };
        out.extend(if unicode { encode(&s, enc) } else { s.chars().map(|c| c as u8).collect() });
    }
    let bang = g.bool();
    let (f, name): (Method, &str) = match (op, bang) {
        (0, false) => (string::upcase, "upcase"),
        (0, true) => (string::upcase_, "upcase!"),
        (1, false) => (string::downcase, "downcase"),
        (1, true) => (string::downcase_, "downcase!"),
        (2, false) => (string::capitalize, "capitalize"),
        (2, true) => (string::capitalize_, "capitalize!"),
        (_, false) => (string::swapcase, "swapcase"),
        (_, true) => (string::swapcase_, "swapcase!"),
    };
    if out != before {
        cx.nontrivial();
    }
    cx.label(name);
    let recv = string(&before, enc);
    let args: Vec<Value> = options.iter().map(|o| Value::symbol_from_str(o)).collect();
    let what = format!("{} ({enc:?}) {name} {options:?}", show(&before));
    let r = call_rest(f, recv, &args);
    agree(cx, &what, recv, &before, enc, r, &out, bang, true)?;
    sweep_all();
    Ok(())
}

const CLOSE: &[u8] = b"aAbBzZ@[`{ \x7f";

/// Characters of an encoding, some with second bytes that differ as the cases of a letter do.
fn close(g: &mut Src, enc: Encoding) -> Vec<u8> {
    match enc {
        Encoding::Sjis(_) if g.chance(1, 3) => g.pick(&[b"\x83\x41", b"\x83\x61"]).to_vec(),
        _ => letter(g, enc, CLOSE),
    }
}

fn compares(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let enc2 = if g.chance(2, 3) { enc } else { g.pick(ENCS) };
    let a: Vec<Vec<u8>> = (0..g.len(6)).map(|_| close(g, enc)).collect();
    let mut b = a.clone();
    if enc2 != enc {
        b.retain(|c| c.is_ascii());
    }
    if !b.is_empty() && g.chance(2, 3) {
        let i = g.usize(b.len());
        match g.below(3) {
            0 => b[i] = close(g, enc2),
            1 => b.truncate(i),
            _ => {
                for c in &mut b {
                    if c.len() == 1 && c[0].is_ascii_alphabetic() && g.bool() {
                        c[0] ^= 0x20;
                    }
                }
            }
        }
    }
    if g.chance(1, 4) {
        b.push(close(g, enc2));
    }
    let (x, y) = (a.concat(), b.concat());
    let ord = x.cmp(&y);
    let sign = |o: Ordering| o as i64;
    let (l, r) = (string(&x, enc), string(&y, enc2));
    let what = format!("{} ({enc:?}), {} ({enc2:?})", show(&x), show(&y));
    cx.label(match ord {
        Ordering::Equal => "equal",
        _ => "different",
    });
    if !x.is_empty() && !y.is_empty() {
        cx.nontrivial();
    }
    let number = |r: Result<Value>| r.ok().and_then(|v| v.try_fixnum());
    let truth = |r: Result<Value>| match r.map(|v| matches!(v.unpack(), RV::Bool(true))) {
        Ok(b) => b,
        Err(e) => panic!("{e:?}"),
    };
    let there = number(call(string::cmp, l, &[r]));
    let back = number(call(string::cmp, r, &[l]));
    note!(cx, "{what}: <=> {there:?}, back {back:?}");
    if ord != Ordering::Equal || enc == enc2 || x.is_ascii() {
        same!(there, Some(sign(ord)), "<=> of {what}");
    }
    // strings of the same bytes in encodings that mean something else are told apart either way
    same!(back, there.map(|n| -n), "<=> back of {what}");
    let there = there.unwrap();
    for (f, name, expect) in [
        (string::lt as Method, "<", there < 0),
        (string::le, "<=", there <= 0),
        (string::gt, ">", there > 0),
        (string::ge, ">=", there >= 0),
    ] {
        same!(truth(call(f, l, &[r])), expect, "{name} of {what}");
    }
    let compatible = enc == enc2 || x.is_ascii() || y.is_ascii();
    let fold = |t: &[Vec<u8>]| t.iter().map(|c| if c.len() == 1 { vec![c[0].to_ascii_lowercase()] } else { c.clone() }).collect::<Vec<_>>();
    let got = call(string::casecmp, l, &[r]);
    note!(cx, "casecmp {}", outcome(&got));
    if compatible {
        same!(number(got), Some(sign(fold(&a).concat().cmp(&fold(&b).concat()))), "casecmp of {what}");
    } else {
        ensure!(matches!(&got, Ok(v) if v.is_nil()), "casecmp of {what}: {}, expected nil", outcome(&got));
    }
    let got = call(string::casecmp_p, l, &[r]);
    note!(cx, "casecmp? {}", outcome(&got));
    if compatible {
        // the letters beyond ASCII here differ by more than their case
        let expect = fold(&a) == fold(&b);
        ensure!(matches!(&got, Ok(v) if matches!(v.unpack(), RV::Bool(b) if b == expect)), "casecmp? of {what}: {}, expected {expect}", outcome(&got));
    } else {
        ensure!(matches!(&got, Ok(v) if v.is_nil()), "casecmp? of {what}: {}, expected nil", outcome(&got));
    }
    sweep_all();
    Ok(())
}

/// The successor by the rule: the rightmost letter or digit is increased, carrying to the next on
/// its left; where there are none the rightmost character is.
fn succ(b: &[u8]) -> Vec<u8> {
    let mut s = b.to_vec();
    let mut at = s.len();
    let mut last: Option<usize> = None;
    let mut gap = false;
    while at > 0 {
        at -= 1;
        let c = s[at];
        if let Some(l) = last {
            if gap && (s[l].is_ascii_alphabetic() && c.is_ascii_digit() || s[l].is_ascii_digit() && c.is_ascii_alphabetic()) {
                break;
            }
        }
        if !c.is_ascii_alphanumeric() {
            gap = true;
            continue;
        }
        gap = false;
        let wrapped = match c {
            b'9' => b'0',
            b'z' => b'a',
            b'Z' => b'A',
            _ => {
                s[at] += 1;
                return s;
            }
        };
        s[at] = wrapped;
        last = Some(at);
    }
    match last {
        Some(l) => {
            let c = if s[l] == b'0' { b'1' } else { s[l] };
            s.insert(l, c);
            s
        }
        None => {
            for i in (0..s.len()).rev() {
                s[i] = s[i].wrapping_add(1);
                if s[i] != 0 {
                    return s;
                }
            }
            if !s.is_empty() {
                s.insert(0, 1);
            }
            s
        }
    }
}

fn successor(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(&[Encoding::Utf8, Encoding::Utf8, Encoding::UsAscii, Encoding::Ascii8, Encoding::Iso8859(1)]);
    let alphabets: &[&[u8]] = &[b"az9Z", b"azAZ09yY8m", b"9Zz.-", b"a9.-*", b".-*/+", b"\xff\xfe\x80\x00", b"9z\xff\xe9 "];
    let binary = matches!(enc, Encoding::Ascii8);
    let alphabet = alphabets[g.usize(if binary { alphabets.len() } else { 5 })];
    let before: Vec<u8> = (0..g.len(7)).map(|_| g.pick(alphabet)).collect();
    let out = succ(&before);
    if out.len() > before.len() || before.iter().any(|c| !c.is_ascii_alphanumeric()) {
        cx.nontrivial();
    }
    cx.label(if out.len() > before.len() { "longer" } else { "as long" });
    let bang = g.bool();
    let recv = string(&before, enc);
    let what = format!("{} ({enc:?}) succ{}", show(&before), if bang { "!" } else { "" });
    let r = call(if bang { string::next_mut } else { string::next }, recv, &[]);
    agree(cx, &what, recv, &before, enc, r, &out, bang, false)?;
    sweep_all();
    Ok(())
}

/// Valid characters and, in between, what is none: every longest start of a character counts once.
fn scrubbed(b: &[u8], enc: Encoding, with: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if enc == Encoding::UsAscii {
            if c < 0x80 { out.push(c) } else { out.extend(with) }
            i += 1;
            continue;
        }
        let (n, low, high) = match c {
            0..=0x7f => (1, 0, 0),
            0xc2..=0xdf => (2, 0x80, 0xbf),
            0xe0 => (3, 0xa0, 0xbf),
            0xed => (3, 0x80, 0x9f),
            0xe1..=0xef => (3, 0x80, 0xbf),
            0xf0 => (4, 0x90, 0xbf),
            0xf1..=0xf3 => (4, 0x80, 0xbf),
            0xf4 => (4, 0x80, 0x8f),
            _ => (0, 0, 0),
        };
        let mut k = 1;
        while k < n && i + k < b.len() && (if k == 1 { low..=high } else { 0x80..=0xbf }).contains(&b[i + k]) {
            k += 1;
        }
        if k == n { out.extend(&b[i..i + k]) } else { out.extend(with) }
        i += k;
    }
    out
}

fn scrubs(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(&[Encoding::Utf8, Encoding::Utf8, Encoding::Utf8, Encoding::UsAscii]);
    let mut before = vec![];
    for _ in 0..g.len(8) {
        match g.below(4) {
            0 => before.push(g.pick(b"ab")),
            1 => before.extend(g.pick(&["é", "あ", "😀", "\u{10ffff}", "\u{800}"]).as_bytes()),
            2 => before.push(g.pick(b"\x80\xbf\xc0\xc2\xe0\xed\xf0\xf4\xf5\xff\x90\xa0\x8f\x9f\xe1\xf1")),
            _ => {
                let c = g.pick(&["é", "あ", "😀", "\u{10ffff}"]).as_bytes();
                before.extend(&c[..g.range(1, c.len() - 1)]);
            }
        }
    }
    let with: Option<&str> = g.pick(&[None, Some(""), Some("?"), Some("<->")]);
    let default = if enc == Encoding::Utf8 { "\u{fffd}" } else { "?" };
    let out = scrubbed(&before, enc, with.unwrap_or(default).as_bytes());
    if out != before {
        cx.nontrivial();
    }
    let bang = g.bool();
    let recv = string(&before, enc);
    let what = format!("{} ({enc:?}) scrub{} {with:?}", before.escape_ascii(), if bang { "!" } else { "" });
    let r = call_opt(if bang { string::scrub_ } else { string::scrub }, recv, vec![with.map(|w| string(w.as_bytes(), Encoding::Utf8))]);
    agree(cx, &what, recv, &before, enc, r, &out, bang, false)?;
    sweep_all();
    Ok(())
}

fn others(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let n = if g.chance(1, 8) { g.range(20, 60) } else { g.len(7) };
    let ascii = g.chance(1, 3);
    let t: Vec<Vec<u8>> = (0..n).map(|_| letter(g, if ascii { Encoding::UsAscii } else { enc }, b"ab\"\\#{$@\n\0\x7f")).collect();
    let before = t.concat();
    let recv = string(&before, enc);
    if t.len() > 1 {
        cx.nontrivial();
    }
    match g.below(6) {
        0 => {
            cx.label("reverse");
            let bang = g.bool();
            let out = t.iter().rev().cloned().collect::<Vec<_>>().concat();
            let r = call(if bang { string::reverse_ } else { string::reverse }, recv, &[]);
            agree(cx, &format!("{} ({enc:?}) reverse", show(&before)), recv, &before, enc, r, &out, bang, false)?;
        }
        1 => {
            cx.label("sum");
            let bits = g.pick(&[None, Some(16), Some(8), Some(1), Some(0), Some(-3), Some(31), Some(32), Some(63), Some(64), Some(80)]);
            let total: u64 = before.iter().map(|b| *b as u64).sum();
            let expect = match bits {
                None => total & 0xffff,
                Some(n @ 1..64) => total & ((1u64 << n) - 1),
                _ => total,
            };
            let what = format!("{} sum {bits:?}", show(&before));
            let r = call_opt(string::sum, recv, vec![bits.map(Value::integer)]);
            note!(cx, "{what} -> {}", outcome(&r));
            same!(r.ok().and_then(|v| v.try_fixnum()), Some(expect as i64), "{what}");
            holds(recv, &before, enc)?;
        }
        2 => {
            cx.label("repeat");
            let n = g.pick(&[0, 1, 2, 3, 7, 40, -1]);
            let r = call(string::mul, recv, &[Value::integer(n)]);
            let what = format!("{} ({enc:?}) * {n}", show(&before));
            if n < 0 {
                note!(cx, "{what} -> {}", outcome(&r));
                ensure!(matches!(r, Err(MonorubyErr::Argument(_))), "{what}: {}, expected an ArgumentError", outcome(&r));
            } else {
                agree(cx, &what, recv, &before, enc, r, &before.repeat(n as usize), false, false)?;
            }
        }
        3 => {
            cx.label("ord");
            let r = call(string::ord, recv, &[]);
            let what = format!("{} ({enc:?}) ord", show(&before));
            note!(cx, "{what} -> {}", outcome(&r));
            match t.first() {
                None => ensure!(matches!(r, Err(MonorubyErr::Argument(_))), "{what}: {}, expected an ArgumentError", outcome(&r)),
                Some(c) => {
                    let n = match enc {
                        Encoding::Utf8 => std::str::from_utf8(c).unwrap().chars().next().unwrap() as i64,
                        _ => c.iter().fold(0, |n, b| n << 8 | *b as i64),
                    };
                    same!(r.ok().and_then(|v| v.try_fixnum()), Some(n), "{what}");
                }
            }
        }
        4 => {
            cx.label("chars");
            let r = call(string::chars, recv, &[]);
            let what = format!("{} ({enc:?}) chars", show(&before));
            let Ok(v) = r else { fail!("{what}: {}", outcome(&r)) };
            let v = v.as_array();
            same!(v.len(), t.len(), "number of {what}");
            for (v, c) in v.iter().zip(&t) {
                holds(*v, c, enc)?;
            }
        }
        _ => {
            cx.label("undump");
            let r = call(string::dump, recv, &[]);
            let what = format!("{} ({enc:?}) dump", show(&before));
            note!(cx, "{what} -> {}", outcome(&r));
            let Ok(v) = r else { fail!("{what}: {}", outcome(&r)) };
            match call(string::undump, v, &[]) {
                Ok(u) => {
                    if let Err(e) = holds(u, &before, enc) {
                        fail!("undump of {what}: {e:?}");
                    }
                }
                Err(e) => fail!("undump of {what}: {e:?}"),
            }
        }
    }
    sweep_all();
    Ok(())
}

pub const PROP: pbt::Prop = pbt::Prop {
    id: "C42",
    rule: "a case counts when the result differs from the receiver, when both strings compared have characters, or when there is more than one character",
    assumptions: &[
        "the general categories of characters beyond ASCII are supplied by a stand-in and not looked at",
        "letters outside a fixed list are not mapped",
    ],
    level: "exploration",
    suites: &[
        pbt::Suite { name: "case", cases: 5_000_000, run: cases },
        pbt::Suite { name: "compare", cases: 5_000_000, run: compares },
        pbt::Suite { name: "succ", cases: 5_000_000, run: successor },
        pbt::Suite { name: "scrub", cases: 4_000_000, run: scrubs },
        pbt::Suite { name: "others", cases: 4_000_000, run: others },
    ],
    known: &[],
};
