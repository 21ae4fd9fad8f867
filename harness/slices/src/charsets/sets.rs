//! The expected outcome is computed over lists of characters, with sets spelled out.

use super::*;
use builtins::string;

const ENCS: &[Encoding] = &[
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::Utf8,
    Encoding::UsAscii,
    Encoding::Ascii8,
    Encoding::Iso8859(1),
    Encoding::EucJp,
    Encoding::Sjis(0),
];

const PLAIN: &[u8] = b"abcdzA0 -^\\";

/// The number of a character: what ranges run over.
fn code(c: &[u8], enc: Encoding) -> u32 {
    match enc {
        Encoding::Utf8 => std::str::from_utf8(c).unwrap().chars().next().unwrap() as u32,
        _ => c.iter().fold(0, |n, b| n << 8 | *b as u32),
    }
}

fn encode(n: u32, enc: Encoding) -> Vec<u8> {
    match enc {
        Encoding::Utf8 => char::from_u32(n).unwrap().to_string().into_bytes(),
        _ => vec![n as u8],
    }
}

/// The characters a specification lists in order, and whether it is all others that are meant.
struct Spec {
    listed: Vec<u32>,
    negated: bool,
}

enum Bad {
    /// A range that runs backwards.
    Range,
    /// A backslash at the end of a range, which the rules say little about.
    Doubt,
}

fn parse(b: &[u8], enc: Encoding, may_negate: bool) -> std::result::Result<Spec, Bad> {
    let c: Vec<u32> = split_chars(b, enc).iter().map(|c| code(c, enc)).collect();
    let is = |i: usize, b: u8| c.get(i) == Some(&(b as u32));
    let negated = may_negate && c.len() > 1 && is(0, b'^');
    let mut i = negated as usize;
    let mut listed = vec![];
    while i < c.len() {
        if is(i, b'\\') && i + 1 < c.len() {
            i += 1;
        }
        let from = c[i];
        i += 1;
        if is(i, b'-') && i + 1 < c.len() {
            let to = c[i + 1];
            if is(i + 1, b'\\') {
                return Err(Bad::Doubt);
            }
            if from > to {
                return Err(Bad::Range);
            }
            listed.extend((from..=to).filter(|n| enc != Encoding::Utf8 || char::from_u32(*n).is_some()));
            i += 2;
        } else {
            listed.push(from);
        }
    }
    Ok(Spec { listed, negated })
}

impl Spec {
    fn has(&self, c: u32) -> bool {
        self.listed.contains(&c) != self.negated
    }
}

fn text(g: &mut Src, enc: Encoding, max: usize) -> Vec<u8> {
    let ascii = g.chance(1, 3);
    let mut out = vec![];
    let mut last: Option<Vec<u8>> = None;
    for _ in 0..g.len(max) {
        let c = match &last {
            Some(c) if g.chance(1, 3) => c.clone(),
            _ => letter(g, if ascii { Encoding::UsAscii } else { enc }, PLAIN),
        };
        out.extend(&c);
        last = Some(c);
    }
    out
}

/// A specification; of several bytes to a character only where sets of those are taken.
fn spec(g: &mut Src, enc: Encoding) -> Vec<u8> {
    let enc = if matches!(enc, Encoding::EucJp | Encoding::Sjis(_)) { Encoding::UsAscii } else { enc };
    let mut out = vec![];
    if g.chance(1, 4) {
        out.push(b'^');
    }
    for _ in 0..g.len(4) {
        match g.weighted(&[5, 3, 1]) {
            0 => out.extend(letter(g, enc, PLAIN)),
            1 => {
                let (mut a, mut b) = (letter(g, enc, b"abcdzA0"), letter(g, enc, b"abcdzA0"));
                if g.chance(9, 10) && a > b {
                    std::mem::swap(&mut a, &mut b);
                }
                // the ranges from one script to another are long
                if code(&b, enc).saturating_sub(code(&a, enc)) > 300 {
                    b = a.clone();
                }
                out.extend(a);
                out.push(b'-');
                out.extend(b);
            }
            _ => {
                out.push(b'\\');
                out.extend(letter(g, enc, b"-^\\a"));
            }
        }
    }
    out
}

fn is_long(b: &[u8], enc: Encoding) -> bool {
    let c: Vec<u32> = split_chars(b, enc).iter().map(|c| code(c, enc)).collect();
    c.windows(3).any(|w| w[1] == b'-' as u32 && w[2].saturating_sub(w[0]) > 400)
}

/// Strings of ASCII may be in any encoding beside another.
fn arg(g: &mut Src, b: &[u8], enc: Encoding) -> Value {
    let enc = if b.is_ascii() && g.chance(1, 3) { g.pick(&[Encoding::Utf8, Encoding::UsAscii]) } else { enc };
    string(b, enc)
}

/// What a call is expected to give: the characters, and whether anything counts as changed.
type Expect = std::result::Result<(Vec<u8>, bool), ()>;

fn agree(cx: &mut Cx, what: &str, recv: Value, before: &[u8], enc: Encoding, r: Result<Value>, expect: Expect, bang: bool) -> R {
    note!(cx, "{what} -> {}", outcome(&r));
    match (&r, &expect) {
        (Err(MonorubyErr::Argument(_)), Err(())) => return holds(recv, before, enc),
        (_, Err(())) => fail!("{what}: got {}, expected an ArgumentError", outcome(&r)),
        (Err(e), Ok(_)) => fail!("{what}: refused with {e:?}"),
        (Ok(v), Ok((b, changed))) => {
            // what came from the replacement may have made it an encoding of more characters
            let enc_of = |b: &[u8]| if enc == Encoding::UsAscii && !b.is_ascii() { Encoding::Utf8 } else { enc };
            if !bang {
                holds(*v, b, enc_of(b))?;
                return holds(recv, before, enc);
            }
            if *changed {
                ensure!(*v == recv, "{what}: gave another string");
                holds(*v, b, enc_of(b))
            } else {
                ensure!(v.is_nil(), "{what}: got {}, expected nil", outcome(&r));
                holds(recv, before, enc)
            }
        }
    }
}

fn translate(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let before = text(g, enc, 12);
    // an ASCII string takes characters of UTF-8
    let of = if enc == Encoding::UsAscii && g.bool() { Encoding::Utf8 } else { enc };
    let from = spec(g, enc);
    let to = spec(g, of);
    if is_long(&from, enc) || is_long(&to, of) {
        return Ok(());
    }
    let (squeeze, bang) = (g.bool(), g.bool());
    let expect = (|| {
        let to = if to.is_empty() { None } else { Some(parse(&to, of, false)?) };
        let from = parse(&from, enc, true)?;
        let (mut out, mut changed, mut last) = (vec![], false, None);
        for c in split_chars(&before, enc) {
            let n = code(&c, enc);
            let new = match &to {
                _ if !from.has(n) => {
                    out.extend(&c);
                    last = None;
                    continue;
                }
                None => {
                    changed = true;
                    continue;
                }
                Some(to) if from.negated => *to.listed.last().unwrap(),
                Some(to) => {
                    let k = from.listed.iter().rposition(|l| *l == n).unwrap();
                    *to.listed.get(k).unwrap_or(to.listed.last().unwrap())
                }
            };
            changed = true;
            if !(squeeze && last == Some(new)) {
                out.extend(encode(new, of));
            }
            last = Some(new);
        }
        Ok((out, changed))
    })();
    let expect = match expect {
        Ok(e) => Ok(e),
        Err(Bad::Range) => Err(()),
        Err(Bad::Doubt) => return Ok(()),
    };
    // deleting by an empty replacement takes the other path: nothing between to squeeze
    let f: Method = match (squeeze, bang) {
        (false, false) => string::tr,
        (false, true) => string::tr_,
        (true, false) => string::tr_s,
        (true, true) => string::tr_s_,
    };
    let (recv, a, b) = (string(&before, enc), arg(g, &from, enc), arg(g, &to, of));
    let what = format!("{} ({enc:?}) tr{}{} {}, {}", show(&before), if squeeze { "_s" } else { "" }, if bang { "!" } else { "" }, show(&from), show(&to));
    if matches!(&expect, Ok((_, true))) {
        cx.nontrivial();
    }
    cx.label(match &expect {
        Err(_) => "refused",
        Ok((_, true)) => "changed",
        _ => "unchanged",
    });
    let r = call(f, recv, &[a, b]);
    agree(cx, &what, recv, &before, enc, r, expect, bang)?;
    sweep_all();
    Ok(())
}

/// delete, squeeze and count with any number of sets, of which a character has to be in all.
fn select(g: &mut Src, cx: &mut Cx) -> R {
    let enc = g.pick(ENCS);
    let before = text(g, enc, 12);
    let mode = g.below(3);
    let specs: Vec<Vec<u8>> = (0..g.range(if mode == 1 { 0 } else { 1 }, 2)).map(|_| spec(g, enc)).collect();
    if specs.iter().any(|s| is_long(s, enc)) {
        return Ok(());
    }
    let bang = mode != 2 && g.bool();
    let mut sets = vec![];
    let mut refused = false;
    for s in &specs {
        match parse(s, enc, true) {
            Ok(s) => sets.push(s),
            Err(Bad::Range) => refused = true,
            Err(Bad::Doubt) => return Ok(()),
        }
    }
    let within = |c: &[u8]| sets.iter().all(|s| s.has(code(c, enc)));
    let chars = split_chars(&before, enc);
    let mut out = vec![];
    let mut n = 0;
    let mut last: Option<&Vec<u8>> = None;
    for c in &chars {
        let gone = match mode {
            0 => within(c),
            1 => within(c) && last == Some(c),
            _ => within(c),
        };
        n += gone as usize;
        if !gone {
            out.extend(c);
        }
        last = Some(c);
    }
    let recv = string(&before, enc);
    let args: Vec<Value> = specs.iter().map(|s| arg(g, s, enc)).collect();
    let (f, name): (Method, &str) = match (mode, bang) {
        (0, false) => (string::delete, "delete"),
        (0, true) => (string::delete_, "delete!"),
        (1, false) => (string::squeeze, "squeeze"),
        (1, true) => (string::squeeze_, "squeeze!"),
        _ => (string::count, "count"),
    };
    let what = format!("{} ({enc:?}) {name} {:?}", show(&before), specs.iter().map(|s| show(s)).collect::<Vec<_>>());
    let r = call_rest(f, recv, &args);
    if n > 0 && n < chars.len() && !refused {
        cx.nontrivial();
    }
    cx.label(name);
    if mode == 2 && !refused {
        note!(cx, "{what} -> {}", outcome(&r));
        let got = r.ok().and_then(|v| v.try_fixnum());
        same!(got, Some(n as i64), "{what}");
        holds(recv, &before, enc)?;
    } else {
        agree(cx, &what, recv, &before, enc, r, if refused { Err(()) } else { Ok((out, n > 0)) }, bang)?;
    }
    sweep_all();
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C40",
    rule: "a character is translated, or some but not all are deleted, squeezed or counted",
    assumptions: &[],
    level: "exploration",
    suites: &[
        Suite { name: "translate", cases: 6_000_000, run: translate },
        Suite { name: "select", cases: 6_000_000, run: select },
    ],
    known: &[],
};
