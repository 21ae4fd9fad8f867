//! C29: glob matching, mounted as it is, against a matcher written from the rules.

#![allow(dead_code, unused)]

use pbt::{Cx, Prop, R, Src, Suite, ensure, note, same};

#[path = "/repo/monoruby/src/builtins/fnmatch.rs"]
mod fnmatch;

const NOESCAPE: u32 = 1;
const PATHNAME: u32 = 2;
const DOTMATCH: u32 = 4;
const CASEFOLD: u32 = 8;
const EXTGLOB: u32 = 16;

// ---- the rules

/// What one piece of a pattern stands for.
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Lit(char),
    Any,
    Star,
    Set(bool, Vec<(char, char)>),
    /// An unterminated set, which no character satisfies.
    Never,
}

fn tokens(pat: &str, flags: u32) -> Vec<Tok> {
    let escape = flags & NOESCAPE == 0;
    let p: Vec<char> = pat.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        match p[i] {
            '*' => out.push(Tok::Star),
            '?' => out.push(Tok::Any),
            '[' => {
                let Some((tok, end)) = set(&p, i + 1, escape) else {
                    out.push(Tok::Never);
                    return out;
                };
                out.push(tok);
                i = end;
            }
            '\\' if escape && i + 1 < p.len() => {
                i += 1;
                out.push(Tok::Lit(p[i]));
            }
            c => out.push(Tok::Lit(c)),
        }
        i += 1;
    }
    out
}

/// The set whose contents start at `i`, and where its `]` is.
fn set(p: &[char], mut i: usize, escape: bool) -> Option<(Tok, usize)> {
    let negated = matches!(p.get(i)?, '!' | '^');
    if negated {
        i += 1;
    }
    // The contents, each with whether it is escaped.
    let mut chars: Vec<(char, bool)> = vec![];
    loop {
        match *p.get(i)? {
            ']' => break,
            '\\' if escape => {
                i += 1;
                chars.push((*p.get(i)?, true));
            }
            c => chars.push((c, false)),
        }
        i += 1;
    }
    let mut ranges = vec![];
    let mut k = 0;
    while k < chars.len() {
        if k + 2 < chars.len() && chars[k + 1] == ('-', false) {
            ranges.push((chars[k].0, chars[k + 2].0));
            k += 3;
        } else {
            ranges.push((chars[k].0, chars[k].0));
            k += 1;
        }
    }
    Some((Tok::Set(negated, ranges), i))
}

fn lower(c: char) -> char {
    c.to_lowercase().next().unwrap()
}

fn one(tok: &Tok, c: char, fold: bool) -> bool {
    let f = |c: char| if fold { lower(c) } else { c };
    match tok {
        Tok::Lit(l) => f(*l) == f(c),
        Tok::Any => true,
        Tok::Set(neg, ranges) => {
            ranges.iter().any(|&(lo, hi)| f(lo) <= f(c) && f(c) <= f(hi)) != *neg
        }
        Tok::Never => false,
        Tok::Star => unreachable!(),
    }
}

/// Whether the pieces match the whole of `s`.
fn segment(pat: &str, s: &str, flags: u32) -> bool {
    let toks = tokens(pat, flags);
    let s: Vec<char> = s.chars().collect();
    let fold = flags & CASEFOLD != 0;
    if flags & DOTMATCH == 0 && s.first() == Some(&'.') && toks.first() != Some(&Tok::Lit('.')) {
        return false;
    }
    // can[j]: the pieces so far match the first j characters
    let mut can = vec![false; s.len() + 1];
    can[0] = true;
    for tok in &toks {
        let mut next = vec![false; s.len() + 1];
        if *tok == Tok::Star {
            let mut seen = false;
            for j in 0..=s.len() {
                seen |= can[j];
                next[j] = seen;
            }
        } else {
            for j in 0..s.len() {
                next[j + 1] = can[j] && one(tok, s[j], fold);
            }
        }
        can = next;
    }
    can[s.len()]
}

fn path(pats: &[&str], strs: &[&str], flags: u32) -> bool {
    // can[j]: the segments so far match the first j segments of the path
    let mut can = vec![false; strs.len() + 1];
    can[0] = true;
    for (i, p) in pats.iter().enumerate() {
        let mut next = vec![false; strs.len() + 1];
        if *p == "**" && i + 1 < pats.len() {
            let mut open = false;
            for j in 0..=strs.len() {
                if j > 0 && flags & DOTMATCH == 0 && strs[j - 1].starts_with('.') {
                    open = false;
                }
                open |= can[j];
                next[j] = open;
            }
        } else {
            for j in 0..strs.len() {
                next[j + 1] = can[j] && segment(p, strs[j], flags);
            }
        }
        can = next;
    }
    can[strs.len()]
}

fn reference(pat: &str, s: &str, flags: u32) -> bool {
    if flags & PATHNAME != 0 {
        let pats: Vec<&str> = pat.split('/').collect();
        let strs: Vec<&str> = s.split('/').collect();
        path(&pats, &strs, flags)
    } else {
        segment(pat, s, flags)
    }
}

// ---- patterns and paths

fn count(src: &mut Src, lo: usize, hi: usize, mean: u64) -> usize {
    let mut n = lo;
    while n < hi && src.more(mean) {
        n += 1;
    }
    n
}

const LETTERS: &[char] = &['a', 'b', 'c', 'a', 'b', '.', 'A', 'B', '1', 'é', 'É', '-', '!', '^', ']', ',', '}', '{', '日'];

fn flags(src: &mut Src) -> u32 {
    let mut f = 0;
    for (bit, num) in [(NOESCAPE, 2), (PATHNAME, 5), (DOTMATCH, 3), (CASEFOLD, 3), (EXTGLOB, 3)] {
        if src.chance(num, 10) {
            f |= bit;
        }
    }
    f
}

fn letter(src: &mut Src, braces: bool) -> char {
    loop {
        let c = src.pick(LETTERS);
        if braces || !matches!(c, '{' | '}' | ',') {
            return c;
        }
        if src.chance(1, 4) {
            return 'a';
        }
    }
}

/// A set and a character that may satisfy it.
fn gen_set(src: &mut Src, flags: u32, braces: bool, out: &mut String) -> char {
    let escape = flags & NOESCAPE == 0;
    let mut hint = 'a';
    out.push('[');
    if src.chance(1, 3) {
        out.push(src.pick(&['!', '^']));
    }
    for _ in 0..count(src, 0, 3, 2) {
        match src.weighted(&[6, 4, 2, 1, 1]) {
            0 => {
                let c = letter(src, braces);
                hint = c;
                if c != ']' {
                    out.push(c);
                }
            }
            1 => {
                let (lo, hi) = src.pick(&[('a', 'c'), ('a', 'b'), ('0', '5'), ('b', 'b'), ('c', 'a'), ('A', 'C'), ('é', 'é')]);
                hint = lo;
                for (k, c) in [lo, '-', hi].into_iter().enumerate() {
                    if escape && k != 1 && src.chance(1, 6) {
                        out.push('\\');
                    }
                    out.push(c);
                }
            }
            2 if escape => {
                hint = src.pick(&[']', '-', 'a', '\\', '!', '^', '*']);
                out.push('\\');
                out.push(hint);
            }
            3 => out.push('-'),
            _ => out.push(src.pick(&['*', '?', '['])),
        }
    }
    if !src.chance(1, 25) {
        out.push(']');
    }
    hint
}

/// One path segment of a pattern, and a name made to fit it.
fn gen_segment(src: &mut Src, flags: u32, braces: bool, mean: u64, pat: &mut String, name: &mut String) {
    if src.chance(1, 6) {
        pat.push('.');
        name.push('.');
    }
    for _ in 0..count(src, 0, 9, mean) {
        match src.weighted(&[10, 4, 5, 4, 2, 1, 1]) {
            0 => {
                let c = letter(src, braces);
                pat.push(c);
                name.push(c);
            }
            1 => {
                pat.push('?');
                name.push(letter(src, true));
            }
            2 => {
                pat.push_str(if src.chance(1, 5) { "**" } else { "*" });
                for _ in 0..count(src, 0, 3, 1) {
                    name.push(letter(src, true));
                }
            }
            3 => {
                let c = gen_set(src, flags, braces, pat);
                name.push(c);
            }
            4 => {
                let c = src.pick(&['*', '?', '[', '\\', 'a', '.', ']', '{', '}', ',']);
                pat.push('\\');
                if flags & NOESCAPE != 0 {
                    name.push('\\');
                    if braces || !matches!(c, '{' | '}' | ',') {
                        pat.push(c);
                        name.push(c);
                    }
                } else {
                    pat.push(c);
                    name.push(c);
                }
            }
            5 if flags & PATHNAME == 0 => {
                pat.push('/');
                name.push('/');
            }
            _ => {
                // a lone metacharacter in the name
                name.push(src.pick(&['*', '.', '/', '\\']));
            }
        }
    }
}

fn gen_pair(src: &mut Src, flags: u32, braces: bool) -> (String, String) {
    let (mut pat, mut name) = (String::new(), String::new());
    if flags & PATHNAME == 0 {
        gen_segment(src, flags, braces, 4, &mut pat, &mut name);
        if src.chance(1, 30) {
            pat.push('\\');
            name.push('\\');
        }
    } else {
        for i in 0..count(src, 1, 6, 3) {
            if i > 0 {
                pat.push('/');
                name.push('/');
            }
            src.begin();
            if src.chance(1, 4) {
                pat.push_str("**");
                let n = count(src, 0, 3, 1);
                for k in 0..n {
                    if k > 0 {
                        name.push('/');
                    }
                    if src.chance(1, 5) {
                        name.push('.');
                    }
                    for _ in 0..count(src, 0, 2, 1) {
                        name.push(letter(src, true));
                    }
                }
                if n == 0 && name.ends_with('/') {
                    name.pop();
                }
            } else {
                gen_segment(src, flags, braces, 2, &mut pat, &mut name);
            }
            src.end();
        }
    }
    // Half the names fit as they are, the others are changed a little.
    if src.bool() {
        let mut s: Vec<char> = name.chars().collect();
        for _ in 0..count(src, 1, 3, 1) {
            let at = src.usize(s.len() + 1);
            match src.below(4) {
                0 => s.insert(at, letter(src, true)),
                1 => s.insert(at, src.pick(&['.', '/', '*'])),
                2 if at < s.len() => {
                    s.remove(at);
                }
                _ if at < s.len() => {
                    s[at] = if s[at].is_lowercase() {
                        s[at].to_uppercase().next().unwrap()
                    } else {
                        lower(s[at])
                    }
                }
                _ => {}
            }
        }
        name = s.into_iter().collect();
    }
    (pat, name)
}

fn show(flags: u32) -> String {
    let mut out = vec![];
    for (bit, name) in [(NOESCAPE, "NOESCAPE"), (PATHNAME, "PATHNAME"), (DOTMATCH, "DOTMATCH"), (CASEFOLD, "CASEFOLD"), (EXTGLOB, "EXTGLOB")] {
        if flags & bit != 0 {
            out.push(name);
        }
    }
    if out.is_empty() { "none".into() } else { out.join("|") }
}

fn classify(cx: &mut Cx, pat: &str, flags: u32, answer: bool) {
    cx.label(if answer { "matches" } else { "does not match" });
    if pat.contains('[') {
        cx.label("a set");
    }
    if pat.contains("**/") && flags & PATHNAME != 0 {
        cx.label("recursive directories");
    }
    if flags & CASEFOLD != 0 {
        cx.label("case folded");
    }
    if answer && pat.contains(['*', '?', '[']) {
        cx.nontrivial();
    }
}

fn matching(src: &mut Src, cx: &mut Cx) -> R {
    let f = flags(src) & !EXTGLOB;
    let (pat, name) = gen_pair(src, f, true);
    note!(cx, "pattern {pat:?}, path {name:?}, flags {}", show(f));
    let want = reference(&pat, &name, f);
    classify(cx, &pat, f, want);
    same!(fnmatch::fnmatch(&pat, &name, f), want, "whether {pat:?} matches {name:?} with flags {}", show(f));
    Ok(())
}

fn segments(src: &mut Src, cx: &mut Cx) -> R {
    let f = flags(src) & !EXTGLOB | PATHNAME;
    let (mut pat, mut name) = (String::new(), String::new());
    gen_segment(src, f, true, 5, &mut pat, &mut name);
    name.retain(|c| c != '/');
    if src.chance(1, 3) {
        let c = letter(src, true);
        let at = src.usize(name.chars().count() + 1);
        let mut s: Vec<char> = name.chars().collect();
        s.insert(at, c);
        name = s.into_iter().collect();
    }
    note!(cx, "pattern {pat:?}, name {name:?}, flags {}", show(f));
    let want = segment(&pat, &name, f);
    classify(cx, &pat, f, want);
    same!(fnmatch::match_segment(&pat, &name, f), want, "whether {pat:?} matches the name {name:?} with flags {}", show(f));
    Ok(())
}

// ---- braces

/// Text with alternatives in it.
enum Part {
    Text(String),
    Group(Vec<Vec<Part>>),
}

fn render(parts: &[Part], out: &mut String) {
    for p in parts {
        match p {
            Part::Text(t) => out.push_str(t),
            Part::Group(alts) => {
                out.push('{');
                for (i, a) in alts.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    render(a, out);
                }
                out.push('}');
            }
        }
    }
}

/// All readings, those of the first alternative of the leftmost group first.
fn readings(parts: &[Part]) -> Vec<String> {
    let Some((first, rest)) = parts.split_first() else {
        return vec![String::new()];
    };
    let heads: Vec<String> = match first {
        Part::Text(t) => vec![t.clone()],
        Part::Group(alts) => alts.iter().flat_map(|a| readings(a)).collect(),
    };
    let tails = readings(rest);
    let mut out = vec![];
    for h in &heads {
        for t in &tails {
            out.push(format!("{h}{t}"));
        }
    }
    out
}

fn gen_text(src: &mut Src, flags: u32, name: &mut String) -> Part {
    let mut t = String::new();
    gen_segment(src, flags, false, 1, &mut t, name);
    if flags & PATHNAME != 0 && src.chance(1, 4) {
        t.push('/');
        name.push('/');
    }
    Part::Text(t)
}

fn gen_parts(src: &mut Src, flags: u32, depth: u32, name: &mut String, budget: &mut u32) -> Vec<Part> {
    let mut out = vec![];
    for _ in 0..count(src, 0, 3, 2) {
        src.begin();
        if depth < 3 && *budget > 0 && src.chance(1, 2) {
            *budget -= 1;
            let n = src.range(1, 3);
            let chosen = src.usize(n);
            let mut alts = vec![];
            for k in 0..n {
                let mut scratch = String::new();
                alts.push(gen_parts(src, flags, depth + 1, &mut scratch, budget));
                if k == chosen {
                    name.push_str(&scratch);
                }
            }
            out.push(Part::Group(alts));
        } else {
            out.push(gen_text(src, flags, name));
        }
        src.end();
    }
    out
}

fn braces(src: &mut Src, cx: &mut Cx) -> R {
    let f = flags(src) | EXTGLOB;
    let mut name = String::new();
    let mut budget = 5;
    let mut parts = gen_parts(src, f, 0, &mut name, &mut budget);
    if src.chance(1, 8) {
        parts.insert(0, Part::Text("}".into()));
        name.insert(0, '}');
    }
    if src.chance(1, 8) {
        let c = src.pick(&["}", "{", ",", "a}"]);
        parts.push(Part::Text(c.into()));
        name.push_str(c);
    }
    let mut pat = String::new();
    render(&parts, &mut pat);
    note!(cx, "pattern {pat:?}, path {name:?}, flags {}", show(f));
    let want = readings(&parts);
    same!(fnmatch::expand_braces(&pat, f & NOESCAPE != 0), want, "the readings of {pat:?}");
    let answer = want.iter().any(|p| reference(p, &name, f));
    classify(cx, &pat, f, answer);
    if want.len() > 1 {
        cx.label("several readings");
        cx.nontrivial();
    }
    same!(fnmatch::fnmatch(&pat, &name, f), answer, "whether {pat:?} matches {name:?} with flags {}", show(f));
    Ok(())
}

fn main() {
    pbt::main(&[Prop {
        id: "C29",
        rule: "the pattern has a wildcard or a set and the path matches it, or the pattern has more than one reading",
        assumptions: &["case folding is one-to-one", "an escaped slash and a slash inside a set are not generated with FNM_PATHNAME", "an unmatched opening brace occurs only after the last group"],
        level: "exploration",
        known: &[],
        suites: &[
            Suite { name: "matching", cases: 8_000_000, run: matching },
            Suite { name: "segments", cases: 4_000_000, run: segments },
            Suite { name: "braces", cases: 2_500_000, run: braces },
        ],
    }]);
}
