//! The expected outcome is computed over lists of characters.

use super::*;
use builtins::string;

const ENCS: &[Encoding] = &[
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::UsAscii,
    Encoding::Ascii8,
    Encoding::Iso8859(1),
    Encoding::EucJp,
    Encoding::Sjis(0),
];

type Char = Vec<u8>;

/// A string, which may have been cut out of a longer one.
fn receiver(g: &mut Src, b: &[u8], enc: Encoding) -> Value {
    if !g.chance(1, 3) {
        return string(b, enc);
    }
    let whole = [b"x", b, b"x"].concat();
    string_substring(string(&whole, enc), 1, 1 + b.len())
}

fn text(g: &mut Src, enc: Encoding) -> Vec<Char> {
    let e = if g.chance(1, 3) { Encoding::UsAscii } else { enc };
    let n = if g.chance(1, 4) { g.range(20, 60) } else { g.len(8) };
    (0..n).map(|_| letter(g, e, b"abcd\\")).collect()
}

/// Which part, as it is told to a method.
#[derive(Debug, Clone, Copy)]
enum Part {
    At(i64),
    Of(i64, i64),
    Range(Option<i64>, Option<i64>, bool),
}

impl Part {
    fn args(&self) -> Vec<Value> {
        let end = |e: Option<i64>| e.map_or(Value::nil(), Value::integer);
        match *self {
            Part::At(i) => vec![Value::integer(i)],
            Part::Of(i, n) => vec![Value::integer(i), Value::integer(n)],
            Part::Range(a, b, excl) => vec![Value::range(end(a), end(b), excl)],
        }
    }
    /// From where to where, of `n`. A position counts from the end when negative, and may be the end
    /// unless something has to be there.
    fn span(&self, n: usize) -> Option<(usize, usize)> {
        let from = |i: i64| if i < 0 { n.checked_sub(i.unsigned_abs() as usize) } else { Some(i as usize).filter(|i| *i <= n) };
        match *self {
            Part::At(i) => from(i).filter(|i| *i < n).map(|i| (i, i + 1)),
            Part::Of(_, len) if len < 0 => None,
            Part::Of(i, len) => from(i).map(|i| (i, i.saturating_add(len as usize).min(n))),
            Part::Range(a, b, excl) => {
                let a = from(a.unwrap_or(0))?;
                let b = match b {
                    None => n as i64,
                    Some(b) => (if b < 0 { b + n as i64 } else { b }) + !excl as i64,
                };
                Some((a, (b.clamp(0, n as i64) as usize).max(a)))
            }
        }
    }
}

fn number(g: &mut Src, n: usize) -> i64 {
    match g.below(16) {
        0 => g.pick(&[i64::MAX / 2, i64::MIN / 2, 1 << 33, -(1 << 33)]),
        _ => g.range(0, 2 * n + 6) as i64 - n as i64 - 3,
    }
}

fn part(g: &mut Src, n: usize) -> Part {
    match g.below(4) {
        0 => Part::At(number(g, n)),
        1 => Part::Of(number(g, n), number(g, n).max(if g.chance(1, 8) { -2 } else { 0 })),
        _ => {
            let (open, close) = (g.chance(1, 8), g.chance(1, 8));
            Part::Range((!open).then(|| number(g, n)), (!close).then(|| number(g, n)), g.bool())
        }
    }
}

/// What the result is encoded in when something is put into a string.
fn joint(a: &[u8], ea: Encoding, b: &[u8], eb: Encoding) -> Option<Encoding> {
    match (a.is_ascii(), b.is_ascii()) {
        (_, true) => Some(ea),
        (true, false) => Some(eb),
        (false, false) => (ea == eb).then_some(ea),
    }
}

/// A string by itself, or nil.
fn gives(g: &mut Src, what: &str, recv: Value, after: &[u8], enc: Encoding, r: &Result<Value>, out: Option<&[u8]>) -> R {
    let v = match r {
        Ok(v) => *v,
        Err(e) => fail!("{what}: refused with {e:?}"),
    };
    let Some(out) = out else {
        ensure!(v.is_nil(), "{what}: {}, expected nil", outcome(r));
        return holds(recv, after, enc);
    };
    if let Err(e) = holds(v, out, enc) {
        fail!("{what}: {e:?}");
    }
    if let Err(e) = holds(recv, after, enc) {
        fail!("receiver after {what}: {e:?}");
    }
    ensure!(v != recv, "{what}: gave the string itself");
    let (mut a, a_was, b, b_was) = if g.bool() { (v, out, recv, after) } else { (recv, after, v, out) };
    a.as_rstring_inner_mut().extend_from_slice_checked(b"+").ok();
    holds(a, &[a_was, b"+"].concat(), enc)?;
    holds(b, b_was, enc)
}

fn reads(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let t = text(g, enc);
    let before = t.concat();
    let recv = receiver(g, &before, enc);
    if t.iter().any(|c| c.len() > 1) && t.len() > 1 || before.len() > 32 {
        cx.nontrivial();
    }
    let who = format!("{} ({enc:?})", show(&before));
    match g.below(8) {
        0..4 => {
            let bang = g.bool();
            let p = part(g, t.len());
            cx.label(if bang { "slice!" } else { "[]" });
            let what = format!("{who} {} {p:?}", if bang { "slice!" } else { "[]" });
            let r = call(if bang { string::slice_ } else { string::index }, recv, &p.args());
            note!(cx, "{what} -> {}", outcome(&r));
            let span = p.span(t.len());
            let out = span.map(|(a, b)| t[a..b].concat());
            let after = match span {
                Some((a, b)) if bang => [&t[..a], &t[b..]].concat().concat(),
                _ => before.clone(),
            };
            gives(g, &what, recv, &after, enc, &r, out.as_deref())?;
        }
        4 => {
            let bang = g.bool();
            let s: Vec<Char> = if !t.is_empty() && g.chance(3, 4) {
                let i = g.usize(t.len());
                t[i..(i + 1 + g.usize(3)).min(t.len())].to_vec()
            } else {
                (0..g.len(3)).map(|_| letter(g, if before.is_ascii() { Encoding::UsAscii } else { enc }, b"abcd\\")).collect()
            };
            let sb = s.concat();
            let hit = (0..=t.len()).find(|i| t[*i..].starts_with(&s));
            cx.label(if bang { "slice! of a string" } else { "[] of a string" });
            let what = format!("{who} {} {}", if bang { "slice!" } else { "[]" }, show(&sb));
            let r = call(if bang { string::slice_ } else { string::index }, recv, &[string(&sb, enc)]);
            note!(cx, "{what} -> {}", outcome(&r));
            let after = match hit {
                Some(i) if bang => [&t[..i], &t[i + s.len()..]].concat().concat(),
                _ => before.clone(),
            };
            gives(g, &what, recv, &after, enc, &r, hit.map(|_| &sb[..]))?;
        }
        5 => {
            let p = part(g, before.len());
            cx.label("byteslice");
            let what = format!("{who} byteslice {p:?}");
            let r = call(string::byteslice, recv, &p.args());
            note!(cx, "{what} -> {}", outcome(&r));
            let out = p.span(before.len()).map(|(a, b)| before[a..b].to_vec());
            // a part of it may be no text any more
            let v = match &r {
                Ok(v) => *v,
                Err(e) => fail!("{what}: refused with {e:?}"),
            };
            match out {
                None => ensure!(v.is_nil(), "{what}: {}, expected nil", outcome(&r)),
                Some(out) => {
                    if let Err(e) = holds(v, &out, enc) {
                        fail!("{what}: {e:?}");
                    }
                }
            }
            holds(recv, &before, enc)?;
        }
        6 => {
            let i = number(g, before.len());
            let at = if i < 0 { before.len().checked_sub(i.unsigned_abs() as usize) } else { Some(i as usize) }.filter(|i| *i < before.len());
            if g.bool() {
                cx.label("getbyte");
                let what = format!("{who} getbyte {i}");
                let r = call(string::getbyte, recv, &[Value::integer(i)]);
                note!(cx, "{what} -> {}", outcome(&r));
                match at {
                    None => ensure!(matches!(&r, Ok(v) if v.is_nil()), "{what}: {}", outcome(&r)),
                    Some(at) => same!(r.ok().and_then(|v| v.try_fixnum()), Some(before[at] as i64), "{what}"),
                }
                holds(recv, &before, enc)?;
            } else {
                cx.label("setbyte");
                let b = g.pick(&[0x61, 0x80, 0xff, 0x3042, -1, 0xe9]);
                let what = format!("{who} setbyte {i} {b}");
                let r = call(string::setbyte, recv, &[Value::integer(i), Value::integer(b)]);
                note!(cx, "{what} -> {}", outcome(&r));
                match at {
                    None => {
                        ensure!(matches!(r, Err(MonorubyErr::Range(_))), "{what}: {}", outcome(&r));
                        holds(recv, &before, enc)?;
                    }
                    Some(at) => {
                        same!(r.ok().and_then(|v| v.try_fixnum()), Some(b), "{what}");
                        let mut after = before.clone();
                        after[at] = b as u8;
                        if let Err(e) = holds(recv, &after, enc) {
                            fail!("receiver after {what}: {e:?}");
                        }
                    }
                }
            }
        }
        _ => {
            cx.label("chr");
            let r = call(string::chr, recv, &[]);
            let what = format!("{who} chr");
            note!(cx, "{what} -> {}", outcome(&r));
            let out = t.first().cloned().unwrap_or_default();
            gives(g, &what, recv, &before, enc, &r, Some(&out))?;
        }
    }
    sweep_all();
    Ok(())
}

fn writes(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let t = text(g, enc);
    let before = t.concat();
    let recv = receiver(g, &before, enc);
    let who = format!("{} ({enc:?})", show(&before));
    // what is put in
    let other = if before.is_ascii() { g.pick(ENCS) } else { enc };
    let most = if g.chance(1, 6) { 40 } else { 4 };
    let s: Vec<Char> = (0..g.len(most)).map(|_| letter(g, other, b"xyz\\")).collect();
    let sb = s.concat();
    let other = if sb.is_ascii() && g.chance(1, 3) { g.pick(ENCS) } else { other };
    let subst = string(&sb, other);
    if t.len() > 1 && !sb.is_empty() {
        cx.nontrivial();
    }
    let bytewise = g.chance(1, 3);
    let joint_enc = joint(&before, enc, &sb, other).unwrap();
    if !bytewise {
        // of a string that is there, or by position
        let by_string = !t.is_empty() && g.chance(1, 4);
        let (args, span, what, lax) = if by_string {
            cx.label("[]= of a string");
            let i = g.usize(t.len());
            let mut n = t[i..(i + 1 + g.usize(3)).min(t.len())].to_vec();
            if g.chance(1, 6) {
                n.push(b"?".to_vec());
            }
            let hit = (0..t.len()).find(|i| t[*i..].starts_with(&n));
            (vec![string(&n.concat(), enc)], hit.map(|i| (i, i + n.len())), show(&n.concat()), false)
        } else {
            cx.label("[]=");
            let p = part(g, t.len());
            let span = match p {
                // the end itself is a place to put something
                Part::At(i) if i == t.len() as i64 => Some((t.len(), t.len())),
                _ => p.span(t.len()),
            };
            (p.args(), span, format!("{p:?}"), false)
        };
        let what = format!("{who} [{what}] = {} ({other:?})", show(&sb));
        let mut args: Vec<Option<Value>> = args.into_iter().map(Some).collect();
        args.push(Some(subst));
        let r = call_opt(string::index_assign, recv, args);
        note!(cx, "{what} -> {}, then {}", outcome(&r), outcome(&Ok(recv)));
        match span {
            None => {
                ensure!(matches!(r, Err(MonorubyErr::Range(_))), "{what}: {}, expected an error", outcome(&r));
                holds(recv, &before, enc)?;
            }
            Some((a, b)) => {
                ensure!(matches!(&r, Ok(v) if *v == subst), "{what}: {}, expected what was put in", outcome(&r));
                let after = [&t[..a], &s[..], &t[b..]].concat().concat();
                if let Err(e) = holds(recv, &after, joint_enc) {
                    fail!("receiver after {what}: {e:?}");
                }
                holds(subst, &sb, other)?;
            }
        }
        sweep_all();
        return Ok(());
    }
    cx.label("bytesplice");
    // bytes at the boundaries of characters, most of the time
    let bounds = |t: &[Char]| -> Vec<usize> { (0..=t.len()).map(|i| t[..i].iter().map(Vec::len).sum()).collect() };
    let place = |g: &mut Src, t: &[Char]| -> Part {
        let b = bounds(t);
        let n = *b.last().unwrap();
        if g.chance(1, 3) {
            return match part(g, n) {
                Part::At(i) => Part::Of(i, 1),
                p => p,
            };
        }
        let i = g.usize(b.len());
        let j = i + g.usize(b.len() - i);
        let (from, to) = (b[i] as i64, b[j] as i64);
        let from = if g.chance(1, 4) && from < n as i64 { from - n as i64 } else { from };
        if g.bool() { Part::Of(from, to - b[i] as i64) } else { Part::Range(Some(from), Some(to), true) }
    };
    let p = place(g, &t);
    let q = g.chance(1, 3).then(|| {
        let mut q = place(g, &s);
        // both are told in the same way
        while matches!(p, Part::Of(..)) != matches!(q, Part::Of(..)) {
            let n = sb.len() as i64;
            q = match q {
                Part::Of(i, len) => Part::Range(Some(i), Some(i.saturating_add(len)), true),
                _ => Part::Of(0, n),
            };
        }
        q
    });
    let what = format!("{who} bytesplice {p:?} {} ({other:?}) {q:?}", show(&sb));
    let mut args: Vec<Value> = p.args();
    args.push(subst);
    args.extend(q.iter().flat_map(|q| q.args()));
    let r = call(string::bytesplice, recv, &args);
    note!(cx, "{what} -> {}, then {}", outcome(&r), outcome(&Ok(recv)));
    let fits = |t: &[Char], span: Option<(usize, usize)>| span.filter(|(a, b)| bounds(t).contains(a) && bounds(t).contains(b));
    let span = fits(&t, p.span(before.len()));
    let from = match q {
        None => Some((0, sb.len())),
        Some(q) => fits(&s, q.span(sb.len())),
    };
    match (span, from) {
        (Some((a, b)), Some((c, d))) => {
            ensure!(matches!(&r, Ok(v) if *v == recv), "{what}: {}, expected the receiver", outcome(&r));
            let after = [&before[..a], &sb[c..d], &before[b..]].concat();
            let enc = joint(&before, enc, &sb[c..d], other).unwrap();
            if let Err(e) = holds(recv, &after, enc) {
                fail!("receiver after {what}: {e:?}");
            }
        }
        _ => {
            cx.label("refused");
            ensure!(matches!(r, Err(MonorubyErr::Range(_))), "{what}: {}, expected an error", outcome(&r));
            holds(recv, &before, enc)?;
        }
    }
    holds(subst, &sb, other)?;
    sweep_all();
    Ok(())
}

pub const PROP: pbt::Prop = pbt::Prop {
    id: "C44",
    rule: "a case counts when the text has several characters and one of several bytes, or is long enough to be shared, or when something is put into several characters",
    assumptions: &["strings hold valid characters of ASCII-compatible encodings"],
    level: "exploration",
    suites: &[
        pbt::Suite { name: "read", cases: 1_500_000, run: reads },
        pbt::Suite { name: "write", cases: 1_500_000, run: writes },
    ],
    known: &[],
};
