//! C37: packing and unpacking by a template agree with what the directives mean.

use super::*;
use rvalue::string::pack::{pack, unpack};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Count {
    Default,
    N(usize),
    Star,
}

#[derive(Clone, Copy, Debug)]
struct Dir {
    c: char,
    native: bool,
    endian: Option<bool>,
    count: Count,
}

/// Width in bytes, big-endian, signed.
fn integer(d: &Dir) -> Option<(usize, bool, bool)> {
    let big = d.endian == Some(true);
    Some(match d.c {
        'c' => (1, false, true),
        'C' => (1, false, false),
        's' => (2, big, true),
        'S' => (2, big, false),
        'i' => (4, big, true),
        'I' => (4, big, false),
        'l' => (if d.native { 8 } else { 4 }, big, true),
        'L' => (if d.native { 8 } else { 4 }, big, false),
        'q' | 'j' => (8, big, true),
        'Q' | 'J' => (8, big, false),
        'n' => (2, true, false),
        'N' => (4, true, false),
        'v' => (2, false, false),
        'V' => (4, false, false),
        _ => return None,
    })
}

/// Width in bytes, big-endian.
fn float(c: char) -> Option<(usize, bool)> {
    Some(match c {
        'd' | 'D' | 'E' => (8, false),
        'G' => (8, true),
        'f' | 'F' | 'e' => (4, false),
        'g' => (4, true),
        _ => return None,
    })
}

#[derive(Clone, PartialEq, Debug)]
enum Val {
    Nil,
    Int(BigInt),
    Float(f64),
    Str(Vec<u8>, Encoding),
}

fn value(v: &Val) -> Value {
    match v {
        Val::Nil => Value::nil(),
        Val::Int(i) => Value::bigint(i.clone()),
        Val::Float(f) => Value::float(*f),
        Val::Str(b, e) => Value::string_from_inner(RStringInner::from_encoding(b, *e)),
    }
}

fn back(v: Value) -> Val {
    match v.unpack() {
        RV::Nil => Val::Nil,
        RV::Fixnum(i) => Val::Int(i.into()),
        RV::BigInt(b) => Val::Int(b.clone()),
        RV::Float(f) => Val::Float(f),
        RV::String(s) => Val::Str(s.as_bytes().to_vec(), s.encoding()),
        _ => Val::Nil,
    }
}

fn alike(a: &[Val], b: &[Val]) -> bool {
    a.len() == b.len()
        && a.iter().zip(b).all(|(x, y)| match (x, y) {
            (Val::Float(x), Val::Float(y)) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()),
            _ => x == y,
        })
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// Groups of three bytes as four numbers of six bits; missing bytes are zero.
fn sextets(g: &[u8]) -> [usize; 4] {
    let at = |i: usize| g.get(i).copied().unwrap_or(0) as usize;
    [at(0) >> 2, (at(0) & 3) << 4 | at(1) >> 4, (at(1) & 15) << 2 | at(2) >> 6, at(2) & 63]
}

fn base64(data: &[u8], per_line: Option<usize>) -> Vec<u8> {
    let mut out = vec![];
    let lines: Vec<&[u8]> = match per_line {
        Some(n) => data.chunks(n).collect(),
        None => vec![data],
    };
    for line in lines {
        for g in line.chunks(3) {
            for (k, s) in sextets(g).into_iter().enumerate() {
                out.push(if k <= g.len() { B64[s] } else { b'=' });
            }
        }
        if per_line.is_some() {
            out.push(b'\n');
        }
    }
    out
}

fn base64_read(data: &[u8], strict: bool) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut group: Vec<usize> = vec![];
    let mut i = 0;
    while i < data.len() {
        match B64.iter().position(|c| *c == data[i]) {
            Some(v) => group.push(v),
            None if strict => {
                // only the padding that completes the last group
                let rest = &data[i..];
                if !(group.len() == 2 && rest == b"==" || group.len() == 3 && rest == b"=") {
                    return None;
                }
                break;
            }
            None if data[i] == b'=' && group.len() >= 2 => break,
            None => {}
        }
        if group.len() == 4 {
            let v = group.iter().fold(0, |a, g| a << 6 | g);
            out.extend([(v >> 16) as u8, (v >> 8) as u8, v as u8]);
            group.clear();
        }
        i += 1;
    }
    if strict && i == data.len() && !group.is_empty() {
        return None;
    }
    match group[..] {
        [a, b] => {
            if strict && b & 15 != 0 {
                return None;
            }
            out.push((a << 2 | b >> 4) as u8);
        }
        [a, b, c] => {
            if strict && c & 3 != 0 {
                return None;
            }
            out.extend([(a << 2 | b >> 4) as u8, (b << 4 | c >> 2) as u8]);
        }
        _ => {}
    }
    Some(out)
}

fn uuencode(data: &[u8], per_line: usize) -> Vec<u8> {
    let mut out = vec![];
    let show = |v: usize| if v == 0 { b'`' } else { 32 + v as u8 };
    for line in data.chunks(per_line) {
        out.push(32 + line.len() as u8);
        for g in line.chunks(3) {
            out.extend(sextets(g).map(show));
        }
        out.push(b'\n');
    }
    out
}

fn utf8(cp: u32) -> Vec<u8> {
    if cp < 0x80 {
        return vec![cp as u8];
    }
    let mut tail = vec![];
    let mut rest = cp;
    let mut room = 6;
    loop {
        tail.push(0x80 | (rest & 0x3f) as u8);
        rest >>= 6;
        room -= 1;
        if rest < 1 << room {
            break;
        }
    }
    // as many ones in front as there are bytes
    let n = tail.len() + 1;
    let lead = (0xffu16 << (8 - n)) as u8 | rest as u8;
    tail.push(lead);
    tail.reverse();
    tail
}

fn utf8_read(b: &[u8]) -> Option<(u32, usize)> {
    let n = b[0].leading_ones() as usize;
    let n = match n {
        0 => 1,
        2..=6 if n <= b.len() => n,
        _ => return None,
    };
    let mut cp = b[0] as u32;
    if n > 1 {
        cp &= (1 << (7 - n)) - 1;
        for c in &b[1..n] {
            if c >> 6 != 2 {
                return None;
            }
            cp = cp << 6 | (*c & 0x3f) as u32;
        }
    }
    (utf8(cp).len() == n).then_some((cp, n))
}

fn low(i: &BigInt, bytes: usize) -> Vec<u8> {
    let v = (i.clone() & BigInt::from(u64::MAX)).to_u64().unwrap();
    v.to_le_bytes()[..bytes].to_vec()
}

enum Error {
    Any,
    /// This template is not decided.
    Skip,
}

type Res<T> = std::result::Result<T, Error>;

fn reference_pack(dirs: &[Dir], args: &[Val], buffer: &[u8]) -> Res<(Vec<u8>, Option<Encoding>)> {
    let mut out = buffer.to_vec();
    let mut args = args.iter();
    let (mut text, mut binary, mut moved) = (None, false, false);
    for d in dirs {
        let many = |left: usize| match d.count {
            Count::Default => 1,
            Count::N(n) => n,
            Count::Star => left,
        };
        if let Some((w, big, _)) = integer(d) {
            binary = true;
            for _ in 0..many(args.len()) {
                let Some(Val::Int(i)) = args.next() else { return Err(Error::Any) };
                let mut b = low(i, w);
                if big {
                    b.reverse();
                }
                out.extend(b);
            }
            continue;
        }
        if let Some((w, big)) = float(d.c) {
            binary = true;
            for _ in 0..many(args.len()) {
                let f = match args.next() {
                    Some(Val::Float(f)) => *f,
                    Some(Val::Int(i)) => match i.to_i64() {
                        Some(i) => i as f64,
                        None => return Err(Error::Skip),
                    },
                    _ => return Err(Error::Any),
                };
                let mut b = if w == 8 { f.to_le_bytes().to_vec() } else { (f as f32).to_le_bytes().to_vec() };
                if big {
                    b.reverse();
                }
                out.extend(b);
            }
            continue;
        }
        let mut string = |nil_ok: bool| match args.next() {
            Some(Val::Str(b, _)) => Ok(b.clone()),
            Some(Val::Nil) if nil_ok => Ok(vec![]),
            _ => Err(Error::Any),
        };
        match d.c {
            'a' | 'A' | 'Z' => {
                binary = true;
                let mut b = string(true)?;
                match d.count {
                    Count::Star => {
                        if d.c == 'Z' {
                            b.push(0);
                        }
                    }
                    _ => b.resize(many(0), if d.c == 'A' { b' ' } else { 0 }),
                }
                out.extend(b);
            }
            'b' | 'B' => {
                binary = true;
                let b = string(true)?;
                let bits: Vec<bool> = (0..many(b.len())).map(|i| b.get(i).is_some_and(|c| c & 1 == 1)).collect();
                for eight in bits.chunks(8) {
                    let at = |k: usize| if d.c == 'b' { k } else { 7 - k };
                    out.push(eight.iter().enumerate().map(|(k, b)| (*b as u8) << at(k)).sum());
                }
            }
            'h' | 'H' => {
                binary = true;
                let b = string(true)?;
                let digit = |i: usize| match b.get(i) {
                    Some(c) if c.is_ascii_alphabetic() => ((c & 7) + 9) & 15,
                    Some(c) => c & 15,
                    None => 0,
                };
                let n = many(b.len());
                for i in (0..n).step_by(2) {
                    let (x, y) = (digit(i), if i + 1 < n { digit(i + 1) } else { 0 });
                    out.push(if d.c == 'h' { y << 4 | x } else { x << 4 | y });
                }
            }
            'U' => {
                text = Some(Encoding::Utf8);
                for _ in 0..many(args.len()) {
                    let Some(Val::Int(i)) = args.next() else { return Err(Error::Any) };
                    match i.to_i64() {
                        Some(i) if (0..1 << 31).contains(&i) => out.extend(utf8(i as u32)),
                        _ => return Err(Error::Any),
                    }
                }
            }
            'w' => {
                binary = true;
                for _ in 0..many(args.len()) {
                    let Some(Val::Int(i)) = args.next() else { return Err(Error::Any) };
                    if *i < BigInt::from(0) {
                        return Err(Error::Any);
                    }
                    let mut groups = vec![];
                    let mut rest = i.clone();
                    loop {
                        groups.push((rest.clone() & BigInt::from(127)).to_u64().unwrap() as u8);
                        rest = rest >> 7u32;
                        if rest.is_zero() {
                            break;
                        }
                    }
                    for (k, g) in groups.iter().enumerate().rev() {
                        out.push(if k > 0 { 0x80 | g } else { *g });
                    }
                }
            }
            'R' => {
                binary = true;
                for _ in 0..many(args.len()) {
                    let Some(Val::Int(i)) = args.next() else { return Err(Error::Any) };
                    let Some(mut v) = i.to_u64() else { return Err(Error::Skip) };
                    while v >= 128 {
                        out.push(v as u8 | 0x80);
                        v /= 128;
                    }
                    out.push(v as u8);
                }
            }
            'r' => {
                binary = true;
                for _ in 0..many(args.len()) {
                    let Some(Val::Int(i)) = args.next() else { return Err(Error::Any) };
                    let Some(mut v) = i.to_i64() else { return Err(Error::Skip) };
                    while !(-64..64).contains(&v) {
                        out.push(v as u8 | 0x80);
                        v = v.div_euclid(128);
                    }
                    out.push(v as u8 & 0x7f);
                }
            }
            'm' => {
                text = text.or(Some(Encoding::UsAscii));
                let b = string(false)?;
                let per = match d.count {
                    Count::N(0) => None,
                    Count::N(n) if n > 2 => Some(n / 3 * 3),
                    _ => Some(45),
                };
                out.extend(base64(&b, per));
            }
            'u' => {
                text = text.or(Some(Encoding::UsAscii));
                let b = string(false)?;
                let per = match d.count {
                    Count::N(n) if n > 2 => n.min(63) / 3 * 3,
                    _ => 45,
                };
                out.extend(uuencode(&b, per));
            }
            'x' => {
                moved = true;
                if d.count != Count::Star {
                    out.resize(out.len() + many(0), 0);
                }
            }
            'X' => {
                moved = true;
                if d.count != Count::Star {
                    match out.len().checked_sub(many(0)) {
                        Some(n) => out.truncate(n),
                        None => return Err(Error::Any),
                    }
                }
            }
            '@' => {
                moved = true;
                out.resize(many(0), 0);
            }
            _ => {}
        }
    }
    let enc = match text {
        None => Some(Encoding::Ascii8),
        Some(_) if binary => Some(Encoding::Ascii8),
        Some(_) if moved => None,
        e => e,
    };
    let enc = if dirs.is_empty() { Some(Encoding::UsAscii) } else { enc };
    Ok((out, enc))
}

fn reference_unpack(dirs: &[Dir], data: &[u8], base: usize, once: bool) -> Res<Vec<Val>> {
    let mut out = vec![];
    let mut at = 0;
    for d in dirs {
        if once && !out.is_empty() {
            break;
        }
        let many = |left: usize| match d.count {
            Count::Default => 1,
            Count::N(n) => n,
            Count::Star => left,
        };
        let star = d.count == Count::Star;
        if let Some((w, big, signed)) = integer(d) {
            for _ in 0..many(data.len() / w + 1) {
                if at + w > data.len() {
                    if star {
                        break;
                    }
                    out.push(Val::Nil);
                    continue;
                }
                let mut b = data[at..at + w].to_vec();
                at += w;
                if !big {
                    b.reverse();
                }
                let v = b.iter().fold(0i128, |a, c| a * 256 + *c as i128);
                let v = if signed && v >> (8 * w - 1) == 1 { v - (1 << (8 * w)) } else { v };
                out.push(Val::Int(match u64::try_from(v) {
                    Ok(u) => u.into(),
                    Err(_) => (v as i64).into(),
                }));
            }
            continue;
        }
        if let Some((w, big)) = float(d.c) {
            for _ in 0..many(data.len() / w + 1) {
                if at + w > data.len() {
                    if star {
                        break;
                    }
                    out.push(Val::Nil);
                    continue;
                }
                let mut b = data[at..at + w].to_vec();
                at += w;
                if big {
                    b.reverse();
                }
                out.push(Val::Float(match w {
                    8 => f64::from_le_bytes(b.try_into().unwrap()),
                    _ => f32::from_le_bytes(b.try_into().unwrap()) as f64,
                }));
            }
            continue;
        }
        let rest = &data[at..];
        match d.c {
            'a' | 'A' => {
                let b = &rest[..many(rest.len()).min(rest.len())];
                at += b.len();
                let mut b = b.to_vec();
                while d.c == 'A' && matches!(b.last(), Some(0 | b' ')) {
                    b.pop();
                }
                out.push(Val::Str(b, Encoding::Ascii8));
            }
            'Z' => {
                let b = &rest[..many(rest.len()).min(rest.len())];
                let end = b.iter().position(|c| *c == 0);
                at += match end {
                    Some(e) if star => e + 1,
                    _ => b.len(),
                };
                out.push(Val::Str(b[..end.unwrap_or(b.len())].to_vec(), Encoding::Ascii8));
            }
            'b' | 'B' => {
                let n = many(8 * rest.len()).min(8 * rest.len());
                let bit = |i: usize| rest[i / 8] >> (if d.c == 'b' { i % 8 } else { 7 - i % 8 }) & 1;
                out.push(Val::Str((0..n).map(|i| b'0' + bit(i)).collect(), Encoding::UsAscii));
                at += n.div_ceil(8);
            }
            'h' | 'H' => {
                let n = many(2 * rest.len()).min(2 * rest.len());
                let digit = |i: usize| rest[i / 2] >> (if (d.c == 'h') == (i % 2 == 0) { 0 } else { 4 }) & 15;
                out.push(Val::Str((0..n).map(|i| b"0123456789abcdef"[digit(i) as usize]).collect(), Encoding::UsAscii));
                at += n.div_ceil(2);
            }
            'U' => {
                for _ in 0..many(rest.len()) {
                    if at == data.len() {
                        break;
                    }
                    let (cp, n) = utf8_read(&data[at..]).ok_or(Error::Any)?;
                    at += n;
                    out.push(Val::Int((cp as u64).into()));
                }
            }
            'w' => {
                for _ in 0..many(rest.len()) {
                    if at == data.len() {
                        break;
                    }
                    let mut v = BigInt::from(0);
                    loop {
                        let Some(c) = data.get(at) else { return Err(Error::Skip) };
                        at += 1;
                        v = v * BigInt::from(128) + BigInt::from(*c & 127);
                        if c & 128 == 0 {
                            break;
                        }
                    }
                    out.push(Val::Int(v));
                }
            }
            'R' | 'r' => {
                for _ in 0..many(rest.len()) {
                    if at == data.len() {
                        break;
                    }
                    let (mut v, mut shift) = (0u128, 0);
                    loop {
                        let Some(c) = data.get(at) else { return Err(Error::Skip) };
                        at += 1;
                        if shift > 63 {
                            return Err(Error::Skip);
                        }
                        v |= ((c & 127) as u128) << shift;
                        shift += 7;
                        if c & 128 == 0 {
                            break;
                        }
                    }
                    if d.c == 'R' {
                        match u64::try_from(v) {
                            Ok(v) => out.push(Val::Int(v.into())),
                            Err(_) => return Err(Error::Skip),
                        }
                    } else {
                        let v = v as i128 - if v >> (shift - 1) & 1 == 1 { 1i128 << shift } else { 0 };
                        match i64::try_from(v) {
                            Ok(v) => out.push(Val::Int(v.into())),
                            Err(_) => return Err(Error::Skip),
                        }
                    }
                }
            }
            'm' => {
                let b = base64_read(rest, d.count == Count::N(0)).ok_or(Error::Any)?;
                out.push(Val::Str(b, Encoding::Ascii8));
                at = data.len();
            }
            'u' | 'M' => return Err(Error::Skip),
            'x' => {
                let n = many(rest.len());
                if n > rest.len() {
                    return Err(Error::Any);
                }
                at += n;
            }
            'X' => {
                if star {
                    return Err(Error::Skip);
                }
                at = at.checked_sub(many(0)).ok_or(Error::Any)?;
            }
            '@' => {
                if star {
                    return Err(Error::Skip);
                }
                let to = if let Count::N(n) = d.count { n } else { 0 };
                if to > data.len() {
                    return Err(Error::Any);
                }
                at = to;
            }
            '^' => out.push(Val::Int(((base + at) as u64).into())),
            _ => {}
        }
    }
    Ok(out)
}

fn template(src: &mut Src, unpacking: bool) -> (Vec<Dir>, String) {
    let mut dirs = vec![];
    let mut text = String::new();
    while src.more(4) {
        src.begin();
        let c = match src.weighted(&[4, 2, 4, 3, 2, 2]) {
            0 => src.pick(&['c', 'C', 's', 'S', 'i', 'I', 'l', 'L', 'q', 'Q', 'j', 'J', 'n', 'N', 'v', 'V']),
            1 => src.pick(&['d', 'D', 'E', 'G', 'f', 'F', 'e', 'g']),
            2 => src.pick(&['a', 'A', 'Z', 'b', 'B', 'h', 'H']),
            3 => src.pick(&['U', 'w', 'R', 'r']),
            4 => src.pick(&['m', 'u']),
            _ => src.pick(&['x', 'X', '@', if unpacking { '^' } else { 'x' }]),
        };
        let mut d = Dir { c, native: false, endian: None, count: Count::Default };
        text.push(c);
        if "sSiIlLqQjJ".contains(c) {
            let order = src.bool();
            let mut mark = String::new();
            if src.chance(1, 4) {
                d.native = true;
                mark.push(if src.bool() { '!' } else { '_' });
            }
            if src.chance(1, 3) {
                let big = src.bool();
                d.endian = Some(big);
                mark.insert(if order { mark.len() } else { 0 }, if big { '>' } else { '<' });
            }
            text.push_str(&mark);
        }
        match src.below(4) {
            0 => {
                d.count = Count::Star;
                text.push('*');
            }
            1 => {
                let n = if "aAZbBhHmu".contains(c) && src.chance(1, 4) { src.usize(150) } else { src.usize(12) };
                d.count = Count::N(n);
                text.push_str(&n.to_string());
            }
            _ => {}
        }
        match src.weighted(&[4, 2, 1]) {
            0 => {}
            1 => text.push(src.pick(&[' ', '\n', '\t'])),
            _ => text.push_str("#a*\n"),
        }
        dirs.push(d);
        src.end();
    }
    (dirs, text)
}

fn int(src: &mut Src) -> BigInt {
    let i = match src.below(5) {
        0 => BigInt::from(src.below(300)),
        1 => BigInt::from(1u64 << src.below(64)) - BigInt::from(src.below(2)),
        2 => BigInt::from(src.u64() >> src.below(64)),
        3 => BigInt::from(src.u64()) * BigInt::from(src.u64() >> src.below(64)),
        _ => BigInt::from(src.below(0x120000)),
    };
    if src.chance(1, 4) { BigInt::from(0) - i } else { i }
}

fn bytes(src: &mut Src) -> Vec<u8> {
    let n = if src.chance(1, 6) { src.usize(140) } else { src.usize(14) };
    let ascii = src.bool();
    (0..n).map(|_| if ascii { src.range(0x20, 0x7e) as u8 } else { src.u8() }).collect()
}

fn args(src: &mut Src, dirs: &[Dir]) -> Vec<Val> {
    let mut out = vec![];
    for d in dirs {
        let n = match d.count {
            Count::Default => 1,
            Count::N(n) => n,
            Count::Star => src.usize(4),
        };
        if integer(d).is_some() || "UwRr".contains(d.c) {
            for _ in 0..n {
                let mut i = int(src);
                if d.c == 'w' && i < BigInt::from(0) && src.chance(9, 10) {
                    i = BigInt::from(0) - i;
                }
                if d.c == 'U' && src.chance(9, 10) {
                    let bits = src.range(1, 31);
                    i = BigInt::from(src.below(1 << bits));
                }
                if d.c == 'r' || d.c == 'R' {
                    let v = src.u64() >> src.below(64);
                    i = if d.c == 'R' { BigInt::from(v) } else { BigInt::from(v as i64) };
                    if d.c == 'r' && src.bool() {
                        i = BigInt::from(-((v >> 1) as i64));
                    }
                }
                out.push(Val::Int(i));
            }
        } else if float(d.c).is_some() {
            for _ in 0..n {
                out.push(match src.below(4) {
                    0 => Val::Int(BigInt::from(src.u64() as i64 >> src.below(64))),
                    1 => Val::Float(src.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.5, 1e300, 1e-300])),
                    2 => Val::Float((src.below(100_000) as f64 - 50_000.0) / 64.0),
                    _ => Val::Float(f64::from_bits(src.u64())),
                });
            }
        } else if "aAZbBhHmu".contains(d.c) {
            let nil = src.chance(1, 20);
            let b = match d.c {
                'b' | 'B' if src.bool() => bytes(src).iter().map(|c| b'0' + (c & 1)).collect(),
                'h' | 'H' if src.bool() => bytes(src).iter().map(|c| b"0123456789abcdefABCDEF"[*c as usize % 22]).collect(),
                // letters that are no hexadecimal digits have no agreed meaning
                'h' | 'H' => bytes(src).iter().map(|c| if matches!(c, b'g'..=b'z' | b'G'..=b'Z') { b'-' } else { *c }).collect(),
                _ => bytes(src),
            };
            out.push(if nil { Val::Nil } else { Val::Str(b, Encoding::Ascii8) });
        }
    }
    if src.chance(1, 12) && !out.is_empty() {
        let n = src.usize(out.len());
        out.truncate(n);
    }
    if src.chance(1, 12) {
        out.push(Val::Int(7.into()));
    }
    out
}

fn packs(src: &mut Src, cx: &mut Cx) -> R {
    let r = packs_(src, cx);
    sweep_all();
    r
}

fn packs_(src: &mut Src, cx: &mut Cx) -> R {
    let (dirs, text) = template(src, false);
    let args = args(src, &dirs);
    let buffer = if src.chance(1, 5) { Some(bytes(src)) } else { None };
    note!(cx, "pack {text:?} {args:?} into {buffer:?}");
    let values: Vec<Value> = args.iter().map(value).collect();
    let buf = buffer.as_ref().map(|b| Value::bytes(b.clone()));
    let (mut vm, mut globals) = (Executor, Globals::new_test());
    let got = pack(&mut vm, &mut globals, &values, &text, buf);
    match (got, reference_pack(&dirs, &args, buffer.as_deref().unwrap_or(b""))) {
        (_, Err(Error::Skip)) => return Ok(()),
        (Err(_), Err(_)) => {}
        (Err(e), Ok((b, _))) => fail!("{args:?} is not packed by {text:?}: {e:?}, expected {b:x?}"),
        (Ok(v), Err(_)) => fail!("{args:?} is packed by {text:?} into {v:?}, expected an error"),
        (Ok(v), Ok((b, enc))) => {
            let s = v.as_rstring_inner();
            ensure!(s.as_bytes() == &b[..], "{args:?} packed by {text:?} is {:x?}, expected {b:x?}", s.as_bytes());
            match (enc, buf) {
                (Some(e), None) => same!(s.encoding(), e, "encoding of what {text:?} packs"),
                (_, Some(buf)) => ensure!(v == buf, "the buffer is not what is returned"),
                _ => {}
            }
            same!(s.clone().code_range(), s.encoding().classify(&b), "code range of {b:x?}");
        }
    }
    if dirs.len() >= 2 && !args.is_empty() {
        cx.nontrivial();
    }
    Ok(())
}

fn unpacks(src: &mut Src, cx: &mut Cx) -> R {
    let r = unpacks_(src, cx);
    sweep_all();
    r
}

fn unpacks_(src: &mut Src, cx: &mut Cx) -> R {
    let (dirs, text) = template(src, true);
    // bytes that fit, bytes that nearly fit, any bytes
    let data = match src.below(4) {
        0 => bytes(src),
        _ => {
            let args = args(src, &dirs);
            match reference_pack(&dirs, &args, b"") {
                Ok((mut b, _)) => {
                    if src.chance(1, 4) && !b.is_empty() {
                        let at = src.usize(b.len());
                        b[at] = src.u8();
                    }
                    if src.chance(1, 4) {
                        b.truncate(src.usize(b.len() + 1));
                    }
                    if src.chance(1, 4) {
                        b.extend(bytes(src));
                    }
                    b
                }
                Err(_) => bytes(src),
            }
        }
    };
    let base = if src.chance(1, 4) { src.usize(10) } else { 0 };
    note!(cx, "unpack {text:?} from {data:x?}");
    let want = reference_unpack(&dirs, &data, base, false);
    let got = unpack(&data, &text, false, base);
    let show = |v: &[Val]| format!("{v:x?}");
    match (&got, &want) {
        (_, Err(Error::Skip)) => {}
        (Err(_), Err(_)) => {}
        (Err(e), Ok(v)) => fail!("{data:x?} is not unpacked by {text:?}: {e:?}, expected {}", show(v)),
        (Ok(v), Err(_)) => fail!("{data:x?} is unpacked by {text:?} into {v:?}, expected an error"),
        (Ok(v), Ok(w)) => {
            let RV::Array(a) = v.unpack() else { fail!("unpack gives {v:?}") };
            let a: Vec<Val> = a.iter().map(|v| back(*v)).collect();
            ensure!(alike(&a, w), "{data:x?} unpacked by {text:?} is {}, expected {}", show(&a), show(w));
        }
    }
    // the first value alone
    let first = unpack(&data, &text, true, base);
    match (first, reference_unpack(&dirs, &data, base, true)) {
        (_, Err(Error::Skip)) | (Err(_), Err(_)) => {}
        (Err(e), Ok(_)) => fail!("the first value of {data:x?} is not unpacked by {text:?}: {e:?}"),
        (Ok(v), Err(_)) => fail!("the first value of {data:x?} is unpacked by {text:?} into {v:?}, expected an error"),
        (Ok(v), Ok(w)) => {
            let w = w.first().cloned().unwrap_or(Val::Nil);
            ensure!(alike(&[back(v)], &[w.clone()]), "the first value of {data:x?} unpacked by {text:?} is {v:?}, expected {w:?}");
        }
    }
    if dirs.len() >= 2 && data.len() >= 2 {
        cx.nontrivial();
    }
    Ok(())
}

/// Encoded text comes back, in lines no longer than asked for; any bytes are decoded somehow.
fn texts(src: &mut Src, cx: &mut Cx) -> R {
    let r = texts_(src, cx);
    sweep_all();
    r
}

fn texts_(src: &mut Src, cx: &mut Cx) -> R {
    let mut data = bytes(src);
    for _ in 0..src.usize(4) {
        let at = src.usize(data.len() + 1);
        data.insert(at, src.pick(&[b'\n', b' ', b'\t', b'=', b'\r', 0xff]));
    }
    let c = src.pick(&['m', 'u', 'M']);
    let n = src.usize(80);
    let counted = src.bool();
    let dir = if counted { format!("{c}{n}") } else { c.to_string() };
    note!(cx, "{dir} {data:x?}");
    let (mut vm, mut globals) = (Executor, Globals::new_test());
    let v = match pack(&mut vm, &mut globals, &[Value::bytes(data.clone())], &dir, None) {
        Ok(v) => v,
        Err(e) => fail!("{data:x?} is not packed by {dir}: {e:?}"),
    };
    let text = v.as_rstring_inner().as_bytes().to_vec();
    note!(cx, "{:?}", String::from_utf8_lossy(&text));
    ensure!(text.is_ascii(), "{data:x?} packed by {dir} is {text:x?}, not text");
    // quoted-printable counts on to the character that passes the limit
    let limit = match (c, counted) {
        ('M', true) if n > 1 => n + 4,
        ('M', _) => 76,
        (_, true) if n > 2 => n / 3 * 4 + 2,
        _ => 62,
    };
    if !(c == 'm' && counted && n == 0) {
        for line in text.split(|c| *c == b'\n') {
            ensure!(line.len() <= limit, "{data:x?} packed by {dir} has a line of {} characters", line.len());
            ensure!(!matches!(line.last(), Some(b' ' | b'\t')) || c == 'u', "{data:x?} packed by {dir} has a line that ends in a blank");
        }
    }
    match unpack(&text, &c.to_string(), true, 0) {
        Ok(v) => ensure!(v.as_rstring_inner().as_bytes() == &data[..], "{data:x?} packed by {dir} reads back as {v:?}"),
        Err(e) => fail!("{data:x?} packed by {dir} is not read back: {e:?}"),
    }
    if !data.is_empty() {
        cx.nontrivial();
    }
    // text that is none
    let junk = if src.bool() { bytes(src) } else { text[..src.usize(text.len() + 1)].to_vec() };
    for c in ["m", "u", "M", "m0"] {
        if let Err(e) = pbt::catch(|| unpack(&junk, c, false, 0).is_ok()) {
            fail!("{junk:x?} unpacked by {c}: {e}");
        }
    }
    Ok(())
}

/// Templates that are none are refused, whatever they are.
fn templates(src: &mut Src, cx: &mut Cx) -> R {
    let (_, mut text) = template(src, true);
    let at = src.usize(text.chars().count() + 1);
    let at = text.char_indices().nth(at).map_or(text.len(), |c| c.0);
    let odd = src.pick(&["%", "k", "t", "あ", "!", "_", "<", ">", "*", "5", "99999999999999999999", "#", "\0", "y<", "a!", "U_", "C>", "-1"]);
    text.insert_str(at, odd);
    note!(cx, "{text:?}");
    let data = bytes(src);
    let huge = text.bytes().filter(u8::is_ascii_digit).count() > 3;
    let (mut vm, mut globals) = (Executor, Globals::new_test());
    if !huge || odd.len() == 20 {
        let r = pbt::catch(|| {
            let _ = unpack(&data, &text, src.bool(), 0);
            let _ = pack(&mut vm, &mut globals, &[], &text, None);
        });
        if let Err(e) = r {
            fail!("{text:?}: {e}");
        }
    }
    // what follows a directive that does not take it, or is a directive of no kind
    let (bad, why) = src.pick(&[("k", "no directive"), ("%", "no directive"), ("a!", "no native form"), ("C_", "no native form"), ("U>", "no byte order"), ("a<", "no byte order"), ("C99999999999999999999", "too long a count")]);
    let (_, before) = template(src, true);
    let whole = format!("{before} {bad}");
    if !before.contains('#') || before.ends_with('\n') || !before.rsplit('\n').next().unwrap().contains('#') {
        ensure!(unpack(&data, &whole, false, 0).is_err(), "{whole:?} is taken for a template: {why}");
        ensure!(pack(&mut vm, &mut globals, &[], &whole, None).is_err(), "{whole:?} is taken for a template: {why}");
    }
    sweep_all();
    cx.nontrivial();
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C37",
    rule: "templates of several directives with modifiers and counts, values and bytes that fit them, nearly fit or do not; non-trivial if there are two directives and something to convert",
    assumptions: &[
        "integers are what the interpreter's conversion makes of the values",
        "pointers, truncated variable-length integers and the star forms of X and @ in unpack are left out",
    ],
    level: "exploration",
    suites: &[
        Suite { name: "packs", cases: 750_000, run: packs },
        Suite { name: "unpacks", cases: 1_050_000, run: unpacks },
        Suite { name: "texts", cases: 450_000, run: texts },
        Suite { name: "templates", cases: 180_000, run: templates },
    ],
    known: &[],
};
