//! C26: what a string answers about its characters is what its bytes and its encoding say.

use super::*;

/// Width of the character of this encoding that starts here, if one does.
fn width(enc: Encoding, b: &[u8]) -> Option<usize> {
    let at = |i: usize| b.get(i).copied().unwrap_or(0) as u32;
    let n = match enc {
        Encoding::Utf8 => {
            let c = at(0);
            let tail = |i: usize| at(i) & 0xc0 == 0x80;
            match c {
                0..=0x7f => 1,
                0xc2..=0xdf if tail(1) => 2,
                0xe0..=0xef if tail(1) && tail(2) => {
                    let cp = (c & 15) << 12 | (at(1) & 63) << 6 | at(2) & 63;
                    if cp < 0x800 || (0xd800..0xe000).contains(&cp) {
                        return None;
                    }
                    3
                }
                0xf0..=0xf4 if tail(1) && tail(2) && tail(3) => {
                    let cp = (c & 7) << 18 | (at(1) & 63) << 12 | (at(2) & 63) << 6 | at(3) & 63;
                    if !(0x10000..=0x10ffff).contains(&cp) {
                        return None;
                    }
                    4
                }
                _ => return None,
            }
        }
        Encoding::UsAscii => {
            if at(0) >= 0x80 {
                return None;
            }
            1
        }
        Encoding::EucJp => {
            let high = |i: usize| (0xa1..=0xfe).contains(&at(i));
            match at(0) {
                0..=0x7f => 1,
                0x8e if (0xa1..=0xdf).contains(&at(1)) => 2,
                0x8f if high(1) && high(2) => 3,
                0xa1..=0xfe if high(1) => 2,
                _ => return None,
            }
        }
        Encoding::Sjis(_) => match at(0) {
            0..=0x7f | 0xa1..=0xdf => 1,
            0x81..=0x9f | 0xe0..=0xfc if at(1) >= 0x40 && at(1) != 0x7f && at(1) <= 0xfc => 2,
            _ => return None,
        },
        Encoding::Utf16Le | Encoding::Utf16Be => 2,
        Encoding::Utf32Le | Encoding::Utf32Be => 4,
        _ => 1,
    };
    (n <= b.len()).then_some(n)
}

/// Lengths of the characters in order: a byte that starts none is one by itself, and so is what is
/// left of an incomplete code unit at the end.
pub fn chars(enc: Encoding, b: &[u8]) -> Vec<usize> {
    let wide = matches!(enc, Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be);
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let n = width(enc, &b[i..]).unwrap_or(if wide { b.len() - i } else { 1 });
        out.push(n);
        i += n;
    }
    out
}

pub fn ascii_compatible(enc: Encoding) -> bool {
    !matches!(
        enc,
        Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be | Encoding::Other(_) | Encoding::Iso2022Jp
    )
}

pub fn class(enc: Encoding, b: &[u8]) -> CodeRange {
    if b.is_empty() || (ascii_compatible(enc) && b.iter().all(|c| *c < 0x80)) {
        return CodeRange::SevenBit;
    }
    let mut i = 0;
    while i < b.len() {
        match width(enc, &b[i..]) {
            Some(n) => i += n,
            None => return CodeRange::Broken,
        }
    }
    CodeRange::Valid
}

/// The encoding of a combination of two strings, if they can be combined.
fn compatible(a: (Encoding, &[u8]), b: (Encoding, &[u8])) -> Option<Encoding> {
    let seven = |x: (Encoding, &[u8])| class(x.0, x.1) == CodeRange::SevenBit;
    if a.0 == b.0 || b.1.is_empty() {
        return Some(a.0);
    }
    if a.1.is_empty() {
        return Some(if ascii_compatible(a.0) && seven(b) { a.0 } else { b.0 });
    }
    if !ascii_compatible(a.0) || !ascii_compatible(b.0) {
        return None;
    }
    match (seven(a), seven(b)) {
        (_, true) => Some(a.0),
        (true, false) => Some(b.0),
        _ => None,
    }
}

fn wide_unit(enc: Encoding, u: u32, out: &mut Vec<u8>) {
    match enc {
        Encoding::Utf16Le => out.extend((u as u16).to_le_bytes()),
        Encoding::Utf16Be => out.extend((u as u16).to_be_bytes()),
        Encoding::Utf32Le => out.extend(u.to_le_bytes()),
        _ => out.extend(u.to_be_bytes()),
    }
}

/// A piece of text in the style of the encoding: characters of it, pieces of characters, anything.
pub fn piece(src: &mut Src, enc: Encoding, out: &mut Vec<u8>) {
    let wide = matches!(enc, Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be);
    match src.weighted(&[5, 4, 2, 1]) {
        0 if wide => wide_unit(enc, src.range(0x20, 0x7e) as u32, out),
        0 => out.push(src.range(0x20, 0x7e) as u8),
        1 => match enc {
            Encoding::EucJp => match src.below(3) {
                0 => out.extend([0x8e, src.range(0xa1, 0xdf) as u8]),
                1 => out.extend([0x8f, src.range(0xa1, 0xfe) as u8, src.range(0xa1, 0xfe) as u8]),
                _ => out.extend([src.range(0xa1, 0xfe) as u8, src.range(0xa1, 0xfe) as u8]),
            },
            Encoding::Sjis(_) => {
                if src.chance(1, 3) {
                    out.push(src.range(0xa1, 0xdf) as u8);
                } else {
                    let lead = if src.bool() { src.range(0x81, 0x9f) } else { src.range(0xe0, 0xfc) };
                    let trail = if src.bool() { src.range(0x40, 0x7e) } else { src.range(0x80, 0xfc) };
                    out.extend([lead as u8, trail as u8]);
                }
            }
            _ if wide => wide_unit(enc, src.range(0xa0, 0xd7ff) as u32, out),
            Encoding::Utf8 | Encoding::Ascii8 | Encoding::UsAscii => {
                let c = match src.below(4) {
                    0 => src.range(0x80, 0x7ff),
                    1 => src.range(0x800, 0xd7ff),
                    2 => src.range(0xe000, 0xffff),
                    _ => src.range(0x10000, 0x10ffff),
                };
                let mut buf = [0; 4];
                out.extend(char::from_u32(c as u32).unwrap().encode_utf8(&mut buf).as_bytes());
            }
            _ => out.push(src.range(0x80, 0xff) as u8),
        },
        2 => {
            // a byte that matters to one of the encodings: leads, trails and what is next to them
            let b = src.pick(&[
                0x80, 0x81, 0x8e, 0x8f, 0x9f, 0xa0, 0xa1, 0xa4, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xe3, 0xed, 0xef, 0xf0, 0xf4, 0xf5,
                0xfc, 0xfd, 0xfe, 0xff, 0x3f, 0x40, 0x7e, 0x7f, 0x00,
            ]);
            out.push(b);
        }
        _ => out.push(src.u8()),
    }
}

pub fn text(src: &mut Src, enc: Encoding, mean: u64) -> Vec<u8> {
    let mut out = vec![];
    let plain = src.chance(1, 4);
    while src.more(mean) {
        if plain && ascii_compatible(enc) {
            out.push(src.range(0x20, 0x7e) as u8);
        } else {
            piece(src, enc, &mut out);
        }
    }
    out
}

pub fn encoding(src: &mut Src) -> Encoding {
    if src.chance(1, 3) { Encoding::Utf8 } else { src.pick(ENCODINGS) }
}

#[derive(Clone)]
struct Model {
    enc: Encoding,
    b: Vec<u8>,
}

struct Str {
    s: RStringInner,
    m: Model,
}

fn make(src: &mut Src, cx: &mut Cx) -> Str {
    let enc = encoding(src);
    let mean = src.pick(&[3u64, 8, 30]);
    let b = text(src, enc, mean);
    let utf8 = std::str::from_utf8(&b).ok().map(|s| s.to_string());
    let (s, enc, how) = match (src.below(10), utf8) {
        (0, Some(t)) => (RStringInner::from_str(&t), Encoding::Utf8, "from_str"),
        (1, Some(t)) => (RStringInner::from_str_scanned(&t), Encoding::Utf8, "from_str_scanned"),
        (2, Some(t)) => (RStringInner::from_string(t), Encoding::Utf8, "from_string"),
        (3, Some(t)) => (RStringInner::from_string_scanned(t), Encoding::Utf8, "from_string_scanned"),
        (4, _) => (RStringInner::bytes(&b), Encoding::Ascii8, "bytes"),
        (5, _) => (RStringInner::bytes_from_vec(b.clone()), Encoding::Ascii8, "bytes_from_vec"),
        (6, t) => {
            let enc = if t.is_some() { Encoding::Utf8 } else { Encoding::Ascii8 };
            (RStringInner::from_vec_scanned(b.clone()), enc, "from_vec_scanned")
        }
        (7, _) => (RStringInner::from_encoding_scanned(&b, enc), enc, "from_encoding_scanned"),
        (8, _) => {
            let mut s = RStringInner::with_encoding_capacity(enc, src.usize(64));
            s.extend_from_slice_no_validate(&b);
            (s, enc, "with_encoding_capacity")
        }
        _ => (RStringInner::from_encoding(&b, enc), enc, "from_encoding"),
    };
    note!(cx, "{how} {b:x?} {enc:?}");
    Str { s, m: Model { enc, b } }
}

/// Everything the string answers. Asked of a copy, so that the string itself is left with what it
/// has worked out so far and no more.
fn check(x: &Str, src: &mut Src, cx: &mut Cx) -> R {
    let s = x.s.clone();
    let Model { enc, b } = &x.m;
    let enc = *enc;
    ensure!(s.as_bytes() == &b[..], "the bytes are {:x?}, expected {b:x?}", s.as_bytes());
    same!(s.encoding(), enc, "encoding");
    let want = class(enc, b);
    let parts = chars(enc, b);
    // each question once as the first one after the operation
    match src.below(9) {
        0 => same!(s.check_utf8().is_ok(), std::str::from_utf8(b).is_ok(), "readable as UTF-8 ({b:x?} in {enc:?})"),
        1 => same!(s.char_length(), parts.len(), "characters in {b:x?} in {enc:?}"),
        2 => same!(s.is_ascii_only(), want == CodeRange::SevenBit, "ascii_only? of {b:x?} in {enc:?}"),
        3 => same!(s.is_valid_encoding(), want != CodeRange::Broken, "valid_encoding? of {b:x?} in {enc:?}"),
        _ => {}
    }
    same!(s.code_range(), want, "code range of {b:x?} in {enc:?}");
    same!(s.is_ascii_only(), want == CodeRange::SevenBit, "ascii_only? of {b:x?} in {enc:?}");
    same!(s.is_valid_encoding(), want != CodeRange::Broken, "valid_encoding? of {b:x?} in {enc:?}");
    same!(s.valid(), want != CodeRange::Broken, "valid? of {b:x?} in {enc:?}");
    same!(s.char_length(), parts.len(), "characters in {b:x?} in {enc:?}");
    let got: Vec<usize> = s.iter_char_bytes().map(|c| c.len()).collect();
    same!(got, parts, "widths of the characters in {b:x?} in {enc:?}");
    same!(s.iter_char_bytes().flatten().copied().collect::<Vec<u8>>(), *b, "bytes of the characters");
    same!(s.check_utf8().is_ok(), std::str::from_utf8(b).is_ok(), "readable as UTF-8 ({b:x?} in {enc:?})");
    // a slice by characters
    let i = src.usize(parts.len() + 1);
    let n = if src.chance(1, 8) { (1usize << 62) - 1 - src.usize(2) } else { src.usize(parts.len() + 2) };
    let start: usize = parts[..i].iter().sum();
    let end = start + parts[i..].iter().take(n).sum::<usize>();
    let r = pbt::catch(|| s.get_range(i, n));
    match r {
        Ok(r) => {
            let got = b.get(r.clone());
            ensure!(
                got == Some(&b[start..end]),
                "{n} characters from number {i} of {b:x?} in {enc:?} are bytes {r:?}, expected {start}..{end}"
            );
        }
        Err(e) => fail!("{n} characters from number {i} of {b:x?} in {enc:?}: {e}"),
    }
    let k = src.range(0, 2 * parts.len() + 4) as i64 - parts.len() as i64 - 2;
    let len = parts.len() as i64;
    let want = if k > len || k < -len { None } else { Some(if k < 0 { k + len } else { k } as usize) };
    same!(s.conv_char_index(k), want, "index {k} in {len} characters");
    if let Ok(t) = std::str::from_utf8(b) {
        let p = src.usize(b.len() + 1);
        let want = t.char_indices().position(|(q, _)| q == p);
        same!(s.byte_to_char_index(p).ok(), want, "the character at byte {p} of {t:?}");
    }
    // the view in which patterns are matched
    let mapped = !matches!(
        enc,
        Encoding::Utf8 | Encoding::UsAscii | Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be
    ) && !(ascii_compatible(enc) && b.is_ascii())
        && !b.is_empty();
    same!(s.needs_byte_mapping(), mapped, "{b:x?} in {enc:?} is matched bytewise");
    match s.regex_view() {
        Ok(v) if mapped => {
            ensure!(v.chars().map(|c| c as u32).eq(b.iter().map(|c| *c as u32)), "the view of {b:x?} is {v:?}");
            let back = RStringInner::from_mapped_utf8(&v, enc);
            ensure!(back.as_bytes() == &b[..] && back.encoding() == enc, "the view of {b:x?} reads back as {back:?}");
            same!(back.code_range(), class(enc, b), "code range of what the view reads back as");
        }
        Ok(v) => ensure!(v.as_bytes() == &b[..], "the view of {b:x?} is {v:?}"),
        Err(_) => ensure!(!mapped && std::str::from_utf8(b).is_err(), "no view of {b:x?} in {enc:?}"),
    }
    Ok(())
}

fn show(m: &Model) -> String {
    format!("{:x?} {:?}", m.b, m.enc)
}

fn histories(src: &mut Src, cx: &mut Cx) -> R {
    let store = Store;
    let mut pool: Vec<Str> = vec![];
    for _ in 0..src.range(1, 3) {
        let x = make(src, cx);
        check(&x, src, cx)?;
        pool.push(x);
    }
    let mut ops = 0;
    let mut high = false;
    while src.more(10) {
        src.begin();
        ops += 1;
        let i = src.usize(pool.len());
        let j = src.usize(pool.len());
        if pool[i].m.b.len() > 400 {
            let x = make(src, cx);
            pool[i] = x;
        }
        high |= pool[i].m.b.iter().any(|c| *c >= 0x80);
        let Model { enc, b } = pool[i].m.clone();
        let other = Str { s: pool[j].s.clone(), m: pool[j].m.clone() };
        let x = &mut pool[i];
        match src.weighted(&[3, 3, 2, 2, 2, 2, 2, 3, 3, 2, 4, 3, 2, 1, 1, 1, 2]) {
            0 => {
                // have something worked out
                note!(cx, "{i}: code_range");
                x.s.code_range();
            }
            1 => {
                note!(cx, "{i}: extend {}", show(&other.m));
                let want = compatible((enc, &b), (other.m.enc, &other.m.b));
                if src.bool() {
                    other.s.code_range();
                }
                match (x.s.extend(&other.s, &store), want) {
                    (Ok(()), Some(e)) => {
                        x.m.b.extend_from_slice(&other.m.b);
                        x.m.enc = e;
                    }
                    (Err(_), None) => {}
                    (Ok(()), None) => fail!("{b:x?} in {enc:?} was extended by {}, which is not compatible", show(&other.m)),
                    (Err(e), Some(_)) => fail!("{b:x?} in {enc:?} was not extended by {}: {e:?}", show(&other.m)),
                }
            }
            2 => {
                let t = text(src, enc, 3);
                note!(cx, "{i}: extend_from_slice_checked {t:x?}");
                let refuse = matches!(enc, Encoding::Utf8 | Encoding::UsAscii) && std::str::from_utf8(&t).is_err();
                match x.s.extend_from_slice_checked(&t) {
                    Ok(()) => {
                        ensure!(!refuse, "{t:x?} was appended to a string in {enc:?}");
                        x.m.b.extend_from_slice(&t);
                    }
                    Err(e) => ensure!(refuse, "{t:x?} was not appended to a string in {enc:?}: {e:?}"),
                }
            }
            3 => {
                let t = text(src, enc, 3);
                note!(cx, "{i}: extend_from_slice_no_validate {t:x?}");
                x.s.extend_from_slice_no_validate(&t);
                x.m.b.extend_from_slice(&t);
            }
            4 => {
                let t = text(src, enc, 3);
                note!(cx, "{i}: extend_from_slice_merge_cr {t:x?}");
                x.s.extend_from_slice_merge_cr(&t);
                x.m.b.extend_from_slice(&t);
            }
            5 => {
                let n = src.usize(4);
                note!(cx, "{i}: repeat {n}");
                let s = x.s.repeat(n);
                x.s = s;
                x.m.b = b.repeat(n);
            }
            6 => {
                note!(cx, "{i}: reverse");
                let s = x.s.reverse();
                x.s = s;
                let mut out = vec![];
                let mut end = b.len();
                for n in chars(enc, &b).iter().rev() {
                    out.extend_from_slice(&b[end - n..end]);
                    end -= n;
                }
                x.m.b = out;
            }
            7 if !b.is_empty() => {
                let at = src.usize(b.len());
                let v = if src.bool() { src.range(0, 0x7f) as u8 } else { src.u8() };
                note!(cx, "{i}: set_byte {at} {v:x}");
                x.s.set_byte(at, v);
                x.m.b[at] = v;
            }
            8 => {
                let e = encoding(src);
                note!(cx, "{i}: set_encoding {e:?}");
                x.s.set_encoding(e);
                x.m.enc = e;
            }
            9 => {
                note!(cx, "{i}: clone of {j}");
                x.s = other.s.clone();
                x.m = other.m.clone();
            }
            10 => {
                // between characters, or anywhere
                let (from, to) = cut(src, enc, &b);
                note!(cx, "{i}: from_substring {from}..{to}");
                let s = RStringInner::from_substring(&x.s, from, to);
                x.s = s;
                x.m.b = b[from..to].to_vec();
            }
            11 => {
                let (from, to) = cut(src, enc, &b);
                note!(cx, "{i}: bytesplice {from}..{to} with {}", show(&other.m));
                let want = compatible((enc, &b), (other.m.enc, &other.m.b));
                match (x.s.bytesplice_with(from, to - from, &other.s, &store), want) {
                    (Ok(()), Some(e)) => {
                        x.m.b.splice(from..to, other.m.b.iter().copied());
                        x.m.enc = e;
                        let broken = class(e, &x.m.b) == CodeRange::Broken;
                        if broken && x.s.encoding() == Encoding::Ascii8 {
                            x.m.enc = Encoding::Ascii8;
                        }
                    }
                    (Err(_), None) => {}
                    (Ok(()), None) => fail!("{} was spliced into {b:x?} in {enc:?}, which is not compatible", show(&other.m)),
                    (Err(e), Some(_)) => fail!("{} was not spliced into {b:x?} in {enc:?}: {e:?}", show(&other.m)),
                }
            }
            12 => {
                let repl: &[u8] = if src.bool() { b"?" } else { b"" };
                note!(cx, "{i}: scrub {repl:x?}");
                let Ok(s) = x.s.scrub(&RStringInner::from_encoding(repl, enc)) else { fail!("scrub fails on {b:x?} in {enc:?}") };
                // every valid character is still there, in order, and only replacements besides
                if class(enc, &b) != CodeRange::Broken {
                    x.m.b = b.clone();
                } else if matches!(enc, Encoding::Utf16Le | Encoding::Utf16Be | Encoding::Utf32Le | Encoding::Utf32Be) {
                    x.m.b = s.as_bytes().to_vec();
                } else {
                    let mut keep = vec![];
                    let mut at = 0;
                    let mut bad = 0;
                    let mut runs = 0;
                    let mut in_run = false;
                    for n in chars(enc, &b) {
                        if width(enc, &b[at..]).is_some() {
                            keep.extend_from_slice(&b[at..at + n]);
                            in_run = false;
                        } else {
                            bad += 1;
                            runs += !in_run as usize;
                            in_run = true;
                        }
                        at += n;
                    }
                    ensure!(
                        class(enc, s.as_bytes()) != CodeRange::Broken,
                        "{b:x?} in {enc:?} scrubbed is {:x?}, still broken",
                        s.as_bytes()
                    );
                    let n = s.as_bytes().len() - keep.len().min(s.as_bytes().len());
                    if repl.is_empty() {
                        ensure!(s.as_bytes() == &keep[..], "{b:x?} in {enc:?} scrubbed is {:x?}, expected {keep:x?}", s.as_bytes());
                    } else {
                        ensure!(
                            subsequence(&keep, s.as_bytes()) && (runs..=bad).contains(&n),
                            "{b:x?} in {enc:?} scrubbed is {:x?}, expected {keep:x?} with {runs} to {bad} replacements",
                            s.as_bytes()
                        );
                    }
                    x.m.b = s.as_bytes().to_vec();
                }
                x.s = s;
            }
            13 if !b.is_empty() => {
                // a foreign function writes into the buffer
                let p = x.s.nul_terminated_buf_ptr();
                let at = src.usize(b.len());
                let v = src.u8();
                note!(cx, "{i}: written through a pointer: {at} {v:x}");
                unsafe {
                    let seen = std::slice::from_raw_parts(p, b.len() + 1);
                    ensure!(seen[..b.len()] == b[..] && seen[b.len()] == 0, "the buffer handed out is {seen:x?}, expected {b:x?} and a NUL");
                    *p.add(at) = v;
                }
                x.m.b[at] = v;
            }
            14 => {
                let t: String = String::from_utf8_lossy(&b).into_owned();
                let mut at = 0;
                let mut reps = vec![];
                let mut want = vec![];
                let mut ok = true;
                let bounds: Vec<usize> = t.char_indices().map(|c| c.0).chain([t.len()]).collect();
                let mut k = 0;
                while src.more(3) && k + 1 < bounds.len() {
                    let from = k + src.usize(bounds.len() - k);
                    let to = from + src.usize(bounds.len() - from);
                    let r = &pool[src.usize(pool.len())];
                    want.extend_from_slice(&t.as_bytes()[at..bounds[from]]);
                    want.extend_from_slice(&r.m.b);
                    ok &= compatible((Encoding::Utf8, t.as_bytes()), (r.m.enc, &r.m.b)).is_some();
                    reps.push((bounds[from]..bounds[to], r.s.clone()));
                    at = bounds[to];
                    k = to;
                }
                want.extend_from_slice(&t.as_bytes()[at..]);
                note!(cx, "{i}: splice_all {t:?} {reps:x?}");
                match RStringInner::splice_all(&store, &t, &reps) {
                    Ok(s) => {
                        ensure!(ok, "a replacement that is not compatible was spliced into {t:?}");
                        pool[i].s = s;
                        pool[i].m = Model { enc: Encoding::Utf8, b: want };
                    }
                    Err(e) => ensure!(!ok, "splice_all of {t:?}: {e:?}"),
                }
            }
            15 => {
                note!(cx, "{i}: compared with {j}");
                let (s, o) = (&x.s, &other.s);
                same!(s.cmp(o), b.cmp(&other.m.b), "order of {b:x?} and {:x?}", other.m.b);
                same!(s == o, b == other.m.b, "equality of {b:x?} and {:x?}", other.m.b);
                let h = |s: &RStringInner| {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    s.hash(&mut h);
                    h.finish()
                };
                if s == o {
                    same!(h(s), h(o), "hashes of equal strings");
                }
                same!(
                    s.compatible_encoding(o),
                    compatible((enc, &b), (other.m.enc, &other.m.b)),
                    "the encoding {b:x?} in {enc:?} and {} combine in",
                    show(&other.m)
                );
            }
            16 => {
                note!(cx, "{i}: detach");
                x.s.detach();
            }
            _ => {}
        }
        check(&pool[i], src, cx)?;
        src.end();
    }
    if ops >= 2 && high {
        cx.nontrivial();
    }
    Ok(())
}

fn subsequence(a: &[u8], b: &[u8]) -> bool {
    let mut it = b.iter();
    a.iter().all(|x| it.any(|y| y == x))
}

/// A range of bytes, more often than not between characters.
pub fn cut(src: &mut Src, enc: Encoding, b: &[u8]) -> (usize, usize) {
    let mut at: Vec<usize> = vec![0];
    if src.chance(2, 3) {
        for n in chars(enc, b) {
            at.push(at[at.len() - 1] + n);
        }
    } else {
        at = (0..=b.len()).collect();
    }
    let i = src.usize(at.len());
    let j = i + src.usize(at.len() - i);
    (at[i], at[j])
}

pub const PROP: Prop = Prop {
    id: "C26",
    rule: "histories of one to three strings in sixteen encodings, from pieces of text that are valid, cut off or arbitrary; non-trivial if two operations were made and bytes beyond ASCII were involved",
    assumptions: &[
        "UTF-16 and UTF-32 are taken by code units, as documented; ISO-2022-JP is left out",
        "smallvec is a stand-in",
    ],
    level: "exploration",
    suites: &[Suite { name: "histories", cases: 400_000, run: histories }],
    known: &[],
};
