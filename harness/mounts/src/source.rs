//! C31: source positions, mounted as they are.

#![allow(dead_code, unused)]

use pbt::{Cx, Prop, R, Src, Suite, ensure, note, same};

#[path = "/repo/monoruby/src/ast/source_info.rs"]
mod source_info;

use source_info::{Loc, SourceInfo};

fn gen_text(src: &mut Src) -> String {
    let mut s = String::new();
    let mean = src.pick(&[2u64, 10, 40, 150]);
    let breaks = src.pick(&[1u32, 3, 10]);
    while src.more(mean) {
        match src.weighted(&[12, breaks, 3, 1, 1]) {
            0 => s.push(src.pick(&['a', 'b', ' ', '=', 'x', '1'])),
            1 => s.push('\n'),
            2 => s.push(src.pick(&['é', '日', '語', '🙂', '\u{2028}', '\u{85}'])),
            3 => s.push('\t'),
            _ => s.push_str("\r\n"),
        }
    }
    s
}

fn make(src: &mut Src, cx: &mut Cx) -> (SourceInfo, String, i64) {
    let text = gen_text(src);
    let offset = match src.below(4) {
        0 => src.usize(100) as i64,
        1 => -(src.usize(5) as i64),
        _ => 0,
    };
    let name = src.pick(&["a.rb", "/x/y/b.rb", "(eval)", "", "lib/日本.rb", "dir/.."]);
    note!(cx, "file {name:?}, line offset {offset}, text {text:?}");
    let mut full = text.clone();
    if !full.ends_with('\n') {
        full.push('\n');
    }
    let info = if offset == 0 && src.bool() { SourceInfo::new(name, text) } else { SourceInfo::new_eval(name, text, offset) };
    // What is attached later changes no position.
    let info = if src.chance(1, 4) {
        info.with_frozen_string_literal(Some(true)).with_source_encoding(Some("utf-8".into())).with_absolute_path(Some("/z".into()))
    } else {
        info
    };
    let info = if src.chance(1, 6) { info.clone() } else { info };
    (info, full, offset)
}

fn lines(src: &mut Src, cx: &mut Cx) -> R {
    let (info, full, offset) = make(src, cx);
    same!(info.code, full, "the source text");
    same!(info.line_offset, offset, "the line offset");
    let newlines = full.matches('\n').count() as i64;
    let mut line = 1;
    for (pos, b) in full.bytes().enumerate() {
        // the end of the span does not matter
        let end = pos + src.usize(3);
        same!(info.get_line(&Loc(pos, end)), line + offset, "the line of byte {pos}");
        if b == b'\n' {
            line += 1;
        }
    }
    for past in [0, 1, 2, 1000, usize::MAX - full.len()] {
        let pos = full.len() + past;
        same!(info.get_line(&Loc(pos, pos)), newlines + offset, "the line of byte {pos}, past the end");
    }
    let name = info.path.to_str().unwrap().to_string();
    same!(info.file_name(), name, "the file name");
    let short = match name.rsplit('/').next().unwrap() {
        "" | ".." => "<internal>",
        s => s,
    };
    same!(info.short_file_name(), short, "the short file name");
    if newlines > 2 {
        cx.nontrivial();
    }
    Ok(())
}

fn width(s: &str) -> usize {
    console::measure_text_width(s) + 7 * s.matches('\t').count()
}

fn marks(src: &mut Src, cx: &mut Cx) -> R {
    let (info, full, offset) = make(src, cx);
    let name = info.path.to_str().unwrap().to_string();
    // A span of whole characters.
    let mut bounds: Vec<usize> = full.char_indices().map(|(i, _)| i).collect();
    let from = src.usize(bounds.len());
    let to = if src.bool() { from + src.usize((bounds.len() - from).min(6)) } else { from + src.usize(bounds.len() - from) };
    // `last` is some byte of the last character of the span.
    let (first, last_char) = (bounds[from], bounds[to]);
    let last = last_char + src.usize(full[last_char..].chars().next().unwrap().len_utf8());
    let end = last_char + full[last_char..].chars().next().unwrap().len_utf8();
    let cols = src.pick(&[80u16, 80, 1000, 20, 7]) as usize;
    note!(cx, "span {first}..={last} on a terminal of {cols} columns");
    console::set_width(cols as u16);
    let got = info.get_location(&Loc(first, last));
    // Which lines does it touch?
    let mut want_lines = vec![];
    let mut top = 0;
    for (i, l) in full.split_inclusive('\n').enumerate() {
        let text = l.strip_suffix('\n').unwrap();
        // bytes of the span in this line, its newline included
        if first < top + l.len() && end > top {
            want_lines.push((i, top, text));
        }
        top += l.len();
    }
    let mut out = got.split('\n');
    let head = out.next().unwrap_or("");
    same!(head, format!("{name}:{}", want_lines[0].0 as i64 + 1 + offset), "the heading");
    for (i, top, text) in &want_lines {
        let from = first.saturating_sub(*top).min(text.len());
        let to = (end - top).min(text.len());
        let shown = out.next().unwrap_or("<nothing>");
        let mark = out.next().unwrap_or("<nothing>");
        // A long line loses whole screens from its start.
        ensure!(text.ends_with(shown), "line {} is shown as {shown:?}, it is {text:?}", i + 1);
        let cut = text.len() - shown.len();
        if from < cols {
            same!(cut, 0, "bytes cut off the start of line {}", i + 1);
        } else {
            ensure!(cut <= from, "line {} is cut behind the start of the span", i + 1);
            ensure!(from - cut < cols, "line {} is not cut far enough", i + 1);
            cx.label("a long line");
        }
        let lead = width(&text[cut..from]);
        let spaces = mark.len() - mark.trim_start_matches(' ').len();
        let carets = &mark[spaces..];
        ensure!(carets.chars().all(|c| c == '^'), "the mark is {mark:?}");
        if from < to {
            let w = width(&text[from..to]);
            if w > 0 {
                same!((spaces, carets.len()), (lead, w), "the column and the width of the mark under {shown:?}");
            }
        }
    }
    same!(out.next(), Some(""), "what follows the last line");
    same!(out.next(), None, "what follows the last line");
    if want_lines.len() > 1 {
        cx.label("several lines");
    }
    if first > 0 {
        cx.nontrivial();
    }
    Ok(())
}

fn merges(src: &mut Src, cx: &mut Cx) -> R {
    let mut v = vec![];
    for _ in 0..src.range(1, 6) {
        let a = src.usize(100);
        v.push(Loc(a, a + src.usize(20)));
    }
    note!(cx, "{v:?}");
    let all = v.iter().skip(1).fold(v[0], |a, b| a.merge(*b));
    same!(all.0, v.iter().map(|l| l.0).min().unwrap(), "start of the merged span");
    same!(all.1, v.iter().map(|l| l.1).max().unwrap(), "end of the merged span");
    if v.len() > 2 {
        cx.nontrivial();
    }
    Ok(())
}

fn main() {
    pbt::main(&[Prop {
        id: "C31",
        rule: "a text with at least three lines, a span that does not start the text, or three spans merged",
        assumptions: &["spans start and end at characters of the text", "the stand-in for the terminal", "rustc"],
        level: "exploration",
        known: &[],
        suites: &[
            Suite { name: "lines", cases: 6_000_000, run: lines },
            Suite { name: "marks", cases: 7_500_000, run: marks },
            Suite { name: "merges", cases: 150_000, run: merges },
        ],
    }]);
}
