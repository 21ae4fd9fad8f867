//! C36: what inspect and dump show reads back as the same string, and is safe to show.

use super::ranges::{ascii_compatible, chars, class, encoding, piece};
use super::*;

/// Reads the inside of a double-quoted literal: its bytes, or why it is none.
fn read(text: &str) -> std::result::Result<Vec<u8>, String> {
    let cs: Vec<char> = text.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let mut push = |out: &mut Vec<u8>, c: char| out.extend(c.encode_utf8(&mut [0; 4]).as_bytes());
    while i < cs.len() {
        let c = cs[i];
        i += 1;
        match c {
            '"' => return Err("a quote is not escaped".into()),
            '#' if matches!(cs.get(i), Some('$' | '@' | '{')) => return Err(format!("#{} would be interpolated", cs[i])),
            '\\' => {
                let Some(&e) = cs.get(i) else { return Err("it ends in a backslash".into()) };
                i += 1;
                let digits = |i: &mut usize, least: usize, most: usize| {
                    let from = *i;
                    while *i < cs.len() && *i - from < most && cs[*i].is_ascii_hexdigit() {
                        *i += 1;
                    }
                    if *i - from < least { None } else { Some(cs[from..*i].iter().collect::<String>()) }
                };
                match e {
                    '"' | '\\' | '#' => out.push(e as u8),
                    'n' => out.push(b'\n'),
                    't' => out.push(b'\t'),
                    'r' => out.push(b'\r'),
                    'f' => out.push(12),
                    'v' => out.push(11),
                    'b' => out.push(8),
                    'a' => out.push(7),
                    'e' => out.push(27),
                    'x' if cs.get(i) == Some(&'{') => {
                        // a character of a multibyte encoding
                        i += 1;
                        let h = digits(&mut i, 2, 8).ok_or("a group without digits")?;
                        if cs.get(i) != Some(&'}') || h.len() % 2 != 0 {
                            return Err("a group of bytes is malformed".into());
                        }
                        i += 1;
                        for k in (0..h.len()).step_by(2) {
                            out.push(u8::from_str_radix(&h[k..k + 2], 16).unwrap());
                        }
                    }
                    'x' => {
                        let h = digits(&mut i, 1, 2).ok_or("\\x without digits")?;
                        out.push(u8::from_str_radix(&h, 16).unwrap());
                    }
                    'u' if cs.get(i) == Some(&'{') => {
                        i += 1;
                        let h = digits(&mut i, 1, 6).ok_or("\\u{} without digits")?;
                        if cs.get(i) != Some(&'}') {
                            return Err("\\u{ is not closed".into());
                        }
                        i += 1;
                        let c = char::from_u32(u32::from_str_radix(&h, 16).unwrap()).ok_or(format!("\\u{{{h}}} is no character"))?;
                        push(&mut out, c);
                    }
                    'u' => {
                        let h = digits(&mut i, 4, 4).ok_or("\\u without four digits")?;
                        let c = char::from_u32(u32::from_str_radix(&h, 16).unwrap()).ok_or(format!("\\u{h} is no character"))?;
                        push(&mut out, c);
                    }
                    _ => return Err(format!("\\{e} is no escape")),
                }
            }
            c if c.is_control() || matches!(c, '\u{2028}' | '\u{2029}' | '\u{fffe}' | '\u{ffff}') => return Err(format!("{c:?} is shown as it is")),
            c => push(&mut out, c),
        }
    }
    Ok(out)
}

fn wide(enc: Encoding) -> bool {
    matches!(enc, Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be)
}

fn encode(enc: Encoding, text: &str) -> Vec<u8> {
    let mut out = vec![];
    for c in text.chars() {
        match enc {
            Encoding::Utf32Le => out.extend((c as u32).to_le_bytes()),
            Encoding::Utf32Be => out.extend((c as u32).to_be_bytes()),
            Encoding::Utf16Le => out.extend(c.encode_utf16(&mut [0; 2]).iter().flat_map(|u| u.to_le_bytes())),
            Encoding::Utf16Be => out.extend(c.encode_utf16(&mut [0; 2]).iter().flat_map(|u| u.to_be_bytes())),
            _ => out.extend(c.encode_utf8(&mut [0; 4]).as_bytes()),
        }
    }
    out
}

/// Text in which the things an escaper has to take care of are next to each other.
fn prickly(src: &mut Src, enc: Encoding) -> Vec<u8> {
    let mut b = vec![];
    let mut t = String::new();
    while src.more(10) {
        let bits = ["#", "{", "$", "@", "\\", "\"", "x", "u", "0", "A4", "\n", "\t", "\0", "\x1b", "\x7f", "}", " ", "é", "あ", "\u{80}", "\u{a0}", "\u{ad}", "\u{2028}", "\u{feff}", "\u{fffe}", "\u{fffd}", "\u{e000}", "\u{1f600}", "\u{10ffff}"];
        match src.weighted(&[6, 3, 2]) {
            0 if wide(enc) => t.push_str(src.pick(&bits)),
            0 => {
                let s = src.pick(&bits);
                if s.is_ascii() || matches!(enc, Encoding::Utf8 | Encoding::Ascii8 | Encoding::UsAscii) {
                    b.extend_from_slice(s.as_bytes());
                } else {
                    piece(src, enc, &mut b);
                }
            }
            1 if wide(enc) => t.push(char::from_u32(src.below(0x110000) as u32).unwrap_or('?')),
            1 => piece(src, enc, &mut b),
            _ if wide(enc) => t.push(src.below(128) as u8 as char),
            _ => b.push(src.u8()),
        }
    }
    if wide(enc) { encode(enc, &t) } else { b }
}

fn readback(src: &mut Src, cx: &mut Cx) -> R {
    let enc = encoding(src);
    let b = prickly(src, enc);
    note!(cx, "{b:x?} in {enc:?}");
    let s = RStringInner::from_encoding(&b, enc);
    let shown = s.inspect();
    note!(cx, "inspect: {shown}");
    match read(&shown) {
        Err(e) => fail!("{b:x?} in {enc:?} is inspected as {shown}: {e}"),
        Ok(got) => {
            let got = if wide(enc) { encode(enc, &String::from_utf8_lossy(&got)) } else { got };
            ensure!(got == b, "{b:x?} in {enc:?} is inspected as {shown}, which reads {got:x?}");
        }
    }
    if enc != Encoding::Utf8 {
        ensure!(shown.is_ascii(), "{b:x?} in {enc:?} is inspected as {shown}, with characters of another encoding in it");
    }
    let dumped = s.dump();
    note!(cx, "dump: {dumped}");
    ensure!(dumped.bytes().all(|c| (0x20..0x7f).contains(&c)), "{b:x?} in {enc:?} is dumped as {dumped:?}, which is not printable ASCII");
    match read(&dumped) {
        Err(e) => fail!("{b:x?} in {enc:?} is dumped as {dumped}: {e}"),
        Ok(got) => ensure!(got == b, "{b:x?} in {enc:?} is dumped as {dumped}, which reads {got:x?}"),
    }
    match s.to_str() {
        Ok(t) => {
            let want: String = if matches!(enc, Encoding::Utf8 | Encoding::UsAscii) {
                String::from_utf8(b.clone()).map_err(|_| "text was made of what is not valid".to_string())?
            } else {
                b.iter().map(|c| if *c < 0x80 { (*c as char).to_string() } else { format!("\\x{c:02X}") }).collect()
            };
            ensure!(t == want, "{b:x?} in {enc:?} as text is {t:?}, expected {want:?}");
        }
        Err(_) => ensure!(
            matches!(enc, Encoding::Utf8 | Encoding::UsAscii) && std::str::from_utf8(&b).is_err(),
            "{b:x?} in {enc:?} is not taken as text"
        ),
    }
    let special = b.iter().filter(|c| !(0x20..0x7f).contains(*c) || b"#\\\"".contains(c)).count();
    if special >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

/// Names of encodings: every name leads back to its encoding, however it is spelled.
fn names(src: &mut Src, cx: &mut Cx) -> R {
    let enc = match src.below(4) {
        0 => Encoding::Iso8859(src.range(1, 16) as u8),
        1 => Encoding::NamedByte(src.usize(rvalue::string::NAMED_BYTE_ENCODINGS.len()) as u8),
        2 => Encoding::Other(src.usize(rvalue::string::OTHER_ENC_NAMES.len()) as u8),
        _ => src.pick(ENCODINGS),
    };
    if enc == Encoding::Iso8859(12) {
        return Ok(());
    }
    let name = enc.name();
    let spelled: String = name
        .chars()
        .map(|c| if src.bool() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() })
        .collect();
    note!(cx, "{enc:?} {name} {spelled}");
    match Encoding::try_from_str(&spelled) {
        Ok(e) => ensure!(e.name() == name, "{spelled} is found to be {}, expected {name}", e.name()),
        Err(e) => fail!("{spelled} is not found: {e:?}"),
    }
    let cut = src.usize(spelled.len() + 1);
    let odd = format!("{}{}{}", &spelled[..cut], src.pick(&["\u{3042}", "?", "%", "\0"]), &spelled[cut..]);
    ensure!(Encoding::try_from_str(&odd).is_err(), "{odd:?} is taken for an encoding");
    cx.nontrivial();
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C36",
    rule: "byte strings in sixteen encodings with the characters that need escaping close together; non-trivial if at least two bytes need care",
    assumptions: &["UTF-16 and UTF-32 strings are valid: broken units are documented to be shown as U+FFFD", "smallvec is a stand-in"],
    level: "exploration",
    suites: &[Suite { name: "readback", cases: 2_400_000, run: readback }, Suite { name: "names", cases: 240_000, run: names }],
    known: &[],
};
