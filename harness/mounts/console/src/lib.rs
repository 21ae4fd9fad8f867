//! A stand-in for the terminal crate: the width is whatever the test says.

use std::cell::Cell;

thread_local! {
    static WIDTH: Cell<u16> = const { Cell::new(80) };
}

pub fn set_width(w: u16) {
    WIDTH.with(|c| c.set(w));
}

pub struct Term;

impl Term {
    pub fn stdout() -> Term {
        Term
    }
    pub fn size(&self) -> (u16, u16) {
        (24, WIDTH.with(|c| c.get()))
    }
}

/// Columns `s` takes: two for wide characters, none for control characters.
pub fn measure_text_width(s: &str) -> usize {
    s.chars()
        .map(|c| match c {
            '\0'..='\x1f' => 0,
            '\u{3000}'..='\u{9fff}' | '\u{1f300}'..='\u{1f6ff}' => 2,
            _ => 1,
        })
        .sum()
}
