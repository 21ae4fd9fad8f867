//! The expected outcome is computed over lists of characters.

use super::*;
use builtins::string;

const ENCS: &[Encoding] = &[
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::UsAscii,
    Encoding::Ascii8,
    Encoding::Iso8859(1),
    Encoding::EucJp,
    Encoding::Sjis(0),
];

type Char = Vec<u8>;

/// A string, which may have been cut out of a longer one.
fn receiver(g: &mut Src, b: &[u8], enc: Encoding) -> Value {
    if !g.chance(1, 3) {
        return string(b, enc);
    }
    let whole = [b"x", b, b"x"].concat();
    string_substring(string(&whole, enc), 1, 1 + b.len())
}

/// Strings of ASCII may be in any encoding beside another.
fn arg(g: &mut Src, b: &[u8], enc: Encoding) -> Value {
    let enc = if b.is_ascii() && g.chance(1, 3) { g.pick(&[Encoding::Utf8, Encoding::UsAscii, Encoding::Ascii8]) } else { enc };
    string(b, enc)
}

/// A text that repeats itself.
fn text(g: &mut Src, enc: Encoding, plain: &[u8]) -> Vec<Char> {
    let e = if g.chance(1, 3) { Encoding::UsAscii } else { enc };
    let some: Vec<Char> = (0..g.range(1, 3)).map(|_| letter(g, e, plain)).collect();
    let n = if g.chance(1, 5) { g.range(20, 60) } else { g.len(9) };
    (0..n).map(|_| if g.chance(4, 5) { some[g.usize(some.len())].clone() } else { letter(g, e, plain) }).collect()
}

/// Something to look for: most often a part of the text.
fn needle(g: &mut Src, t: &[Char], enc: Encoding, plain: &[u8]) -> Vec<Char> {
    if !t.is_empty() && g.chance(4, 5) {
        let n = 1 + g.usize(t.len().min(3));
        let at = g.usize(t.len() - n + 1);
        return t[at..at + n].to_vec();
    }
    let e = if t.iter().all(|c| c.len() == 1 && c[0] < 0x80) && g.bool() { Encoding::UsAscii } else { enc };
    (0..g.len(2)).map(|_| letter(g, e, plain)).collect()
}

/// At which characters something begins.
fn places(t: &[Char], what: &[Char]) -> Vec<usize> {
    if what.len() > t.len() {
        return vec![];
    }
    (0..=t.len() - what.len()).filter(|i| t[*i..].starts_with(what)).collect()
}

fn position(g: &mut Src, n: usize) -> i64 {
    match g.below(12) {
        0 => g.pick(&[i64::MAX / 2, i64::MIN / 2, 1 << 40, -(1 << 40)]),
        _ => g.range(0, 2 * n + 6) as i64 - n as i64 - 3,
    }
}

fn finds(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let t = text(g, enc, b"abc\\");
    let s = needle(g, &t, enc, b"abc\\");
    let (tb, sb) = (t.concat(), s.concat());
    let recv = receiver(g, &tb, enc);
    let needle = arg(g, &sb, enc);
    let hits = places(&t, &s);
    let starts: Vec<usize> = (0..=t.len()).map(|i| t[..i].iter().map(Vec::len).sum()).collect();
    if hits.len() > 1 || hits.first().is_some_and(|h| *h > 0) {
        cx.nontrivial();
    }
    let op = g.below(5);
    let bytewise = op == 2 || op == 3;
    let size = if bytewise { tb.len() } else { t.len() };
    let pos = g.bool().then(|| position(g, size));
    // where an empty text ends when counted from its end is left open
    let pos = pos.filter(|p| !(t.is_empty() && *p < 0));
    let what = format!("{} ({enc:?}) {} {} {pos:?}", show(&tb), ["index", "rindex", "byteindex", "byterindex", "include?"][op as usize], show(&sb));
    let f = [string::string_index, string::string_rindex, string::byteindex, string::byterindex, string::include_][op as usize];
    if op == 4 {
        let r = call(f, recv, &[needle]);
        note!(cx, "{what} -> {}", outcome(&r));
        match r.as_ref().map(|v| v.unpack()) {
            Ok(RV::Bool(b)) => same!(b, !hits.is_empty(), "{what}"),
            _ => fail!("{what}: {}", outcome(&r)),
        }
        sweep_all();
        return Ok(());
    }
    let r = call_opt(f, recv, vec![Some(needle), pos.map(Value::integer)]);
    note!(cx, "{what} -> {}", outcome(&r));
    let back = op == 1 || op == 3;
    let at = match pos {
        None if back => Some(size),
        None => Some(0),
        Some(p) if p >= 0 => {
            let p = p as usize;
            if p > size && !back { None } else { Some(p.min(size)) }
        }
        Some(p) => size.checked_sub(p.unsigned_abs() as usize),
    };
    let got = match &r {
        Ok(v) if v.is_nil() => Ok(None),
        Ok(v) => Ok(v.try_fixnum()),
        Err(e) => Err(e),
    };
    let hits: Vec<usize> = if bytewise { hits.iter().map(|h| starts[*h]).collect() } else { hits };
    match at {
        None => same!(got, Ok(None), "{what}"),
        Some(at) if bytewise && !starts.contains(&at) => {
            cx.label("inside a character");
            ensure!(matches!(r, Err(MonorubyErr::Range(_))), "{what}: {}, expected an IndexError", outcome(&r))
        }
        Some(at) => {
            let hit = if back { hits.iter().rev().find(|h| **h <= at) } else { hits.iter().find(|h| **h >= at) };
            same!(got, Ok(hit.map(|h| *h as i64)), "{what}")
        }
    }
    holds(recv, &tb, enc)?;
    sweep_all();
    Ok(())
}

const SPACE: &[u8] = b" \t\n\r\x0b\x0c";

fn is_space(c: &Char) -> bool {
    c.len() == 1 && SPACE.contains(&c[0])
}

/// The fields of a text. `limit` is 0 for none.
fn fields(t: &[Char], sep: Option<&[Char]>, limit: i64) -> Vec<Vec<Char>> {
    let mut out: Vec<Vec<Char>> = vec![];
    let mut rest = t;
    if t.is_empty() {
        return out;
    }
    let awk = sep.is_none_or(|s| s == [b" ".to_vec()]);
    loop {
        if awk && limit != 1 {
            let n = rest.iter().take_while(|c| is_space(c)).count();
            rest = &rest[n..];
        }
        if limit > 0 && out.len() as i64 == limit - 1 {
            break;
        }
        let cut = if awk {
            // the white space that follows goes with the next field
            rest.iter().position(is_space).map(|i| (i, 1))
        } else {
            let s = sep.unwrap();
            match s.len() {
                0 => (!rest.is_empty()).then_some((1, 0)),
                n => places(rest, s).first().map(|i| (*i, n)),
            }
        };
        let Some((i, n)) = cut else { break };
        out.push(rest[..i].to_vec());
        rest = &rest[i + n..];
    }
    out.push(rest.to_vec());
    if limit == 0 {
        while out.last().is_some_and(|f| f.is_empty()) {
            out.pop();
        }
    }
    out
}

/// An array of strings with these contents, each by itself.
fn pieces(g: &mut Src, what: &str, recv: Value, before: &[u8], enc: Encoding, r: Result<Value>, expect: &[Vec<u8>]) -> R {
    let v = match &r {
        Ok(v) => *v,
        Err(e) => fail!("{what}: refused with {e:?}"),
    };
    let Some(a) = v.try_array_ty() else { fail!("{what}: {}", outcome(&r)) };
    let got: Vec<String> = a.iter().map(|v| outcome(&Ok(*v))).collect();
    let want: Vec<String> = expect.iter().map(|b| show(b)).collect();
    same!(a.len(), expect.len(), "number of parts of {what}: {got:?}, expected {want:?}");
    for (v, b) in a.iter().zip(expect) {
        if let Err(e) = holds(*v, b, enc) {
            fail!("{what}: {e:?}: {got:?}, expected {want:?}");
        }
    }
    // what becomes of one of them, or of the whole, leaves the others alone
    let mut all: Vec<(Value, Vec<u8>)> = a.iter().copied().zip(expect.iter().cloned()).collect();
    all.push((recv, before.to_vec()));
    let i = g.usize(all.len());
    all[i].0.as_rstring_inner_mut().extend_from_slice_checked(b"+").ok();
    all[i].1.push(b'+');
    for (v, b) in all {
        if let Err(e) = holds(v, &b, enc) {
            fail!("{what}, with part {i} extended: {e:?}");
        }
    }
    Ok(())
}

fn splits(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let plain = g.pick::<&[u8]>(&[b"ab ,", b"a \t\n", b"a,\\"]);
    let t = text(g, enc, plain);
    let sep: Option<Option<Vec<Char>>> = match g.below(6) {
        0 => None,
        1 => Some(None),
        2 => Some(Some(vec![])),
        3 => Some(Some(vec![b" ".to_vec()])),
        _ => Some(Some(needle(g, &t, enc, plain))),
    };
    let limit = if sep.is_some() { g.pick(&[None, None, Some(0), Some(1), Some(2), Some(3), Some(4), Some(-1), Some(30), Some(i32::MAX as i64)]) } else { None };
    let given = sep.clone().flatten();
    let expect: Vec<Vec<u8>> = fields(&t, given.as_deref(), limit.unwrap_or(0)).iter().map(|f| f.concat()).collect();
    if expect.len() > 1 {
        cx.nontrivial();
    }
    let before = t.concat();
    let recv = receiver(g, &before, enc);
    let what = format!("{} ({enc:?}) split {:?} {limit:?}", show(&before), given.as_ref().map(|s| show(&s.concat())));
    let sep = sep.map(|s| s.map_or(Value::nil(), |s| arg(g, &s.concat(), enc)));
    let r = call_opt(string::split, recv, vec![sep, limit.map(Value::integer)]);
    note!(cx, "{what} -> {}", outcome(&r));
    pieces(g, &what, recv, &before, enc, r, &expect)?;
    sweep_all();
    Ok(())
}

fn lines(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let plain = g.pick::<&[u8]>(&[b"ab\n", b"a\n\n", b"a\r\n\n", b"a,b\n"]);
    let mut t = text(g, enc, plain);
    // a carriage return by itself at the end is another matter
    if t.last().is_some_and(|c| c == b"\r") {
        t.push(b"\n".to_vec());
    }
    let chomp = g.bool();
    let newline = vec![b"\n".to_vec()];
    let sep: Option<Option<Vec<Char>>> = match g.below(6) {
        0 | 1 => None,
        2 => Some(Some(newline.clone())),
        3 => Some(Some(vec![])),
        4 => Some(Some(needle(g, &t, enc, plain))),
        _ => Some(None),
    };
    let mut expect: Vec<Vec<Char>> = vec![];
    match &sep {
        Some(None) => {
            if !t.is_empty() {
                expect.push(t.clone());
            }
        }
        Some(Some(s)) if s.is_empty() => {
            // paragraphs, after which there are at least two line feeds
            let mut rest = &t[..];
            while !rest.is_empty() {
                match places(rest, &[newline.clone(), newline.clone()].concat()).first() {
                    None => {
                        expect.push(rest.to_vec());
                        break;
                    }
                    Some(i) => {
                        expect.push(rest[..i + if chomp { 0 } else { 2 }].to_vec());
                        let n = rest[*i..].iter().take_while(|c| **c == newline[0]).count();
                        rest = &rest[i + n..];
                    }
                }
            }
        }
        _ => {
            let s = sep.clone().flatten().unwrap_or(newline.clone());
            let mut rest = &t[..];
            while !rest.is_empty() {
                let Some(i) = places(rest, &s).first().copied() else {
                    expect.push(rest.to_vec());
                    break;
                };
                let mut line = rest[..i + if chomp { 0 } else { s.len() }].to_vec();
                if chomp && s == newline && line.last().is_some_and(|c| c == b"\r") {
                    line.pop();
                }
                expect.push(line);
                rest = &rest[i + s.len()..];
            }
        }
    }
    if expect.len() > 1 {
        cx.nontrivial();
    }
    let expect: Vec<Vec<u8>> = expect.iter().map(|l| l.concat()).collect();
    let before = t.concat();
    let recv = receiver(g, &before, enc);
    let what = format!("{} ({enc:?}) lines {:?}, chomp: {chomp}", show(&before), sep.as_ref().map(|s| s.as_ref().map(|s| show(&s.concat()))));
    let sep = sep.map(|s| s.map_or(Value::nil(), |s| arg(g, &s.concat(), enc)));
    let r = call_opt(string::lines, recv, vec![sep, Some(Value::bool(chomp))]);
    note!(cx, "{what} -> {}", outcome(&r));
    pieces(g, &what, recv, &before, enc, r, &expect)?;
    sweep_all();
    Ok(())
}

pub const PROP: pbt::Prop = pbt::Prop {
    id: "C43",
    rule: "a case counts when what is looked for is there more than once or behind the start, or when there is more than one part",
    assumptions: &["strings hold valid characters of ASCII-compatible encodings", "only strings are searched for, not patterns"],
    level: "exploration",
    suites: &[
        pbt::Suite { name: "find", cases: 1_000_000, run: finds },
        pbt::Suite { name: "split", cases: 1_000_000, run: splits },
        pbt::Suite { name: "lines", cases: 1_000_000, run: lines },
    ],
    known: &[],
};
