//! A stand-in for `encoding_rs`: only enough for strings tagged ISO-2022-JP, with its escape
//! sequences but without its tables.

use std::borrow::Cow;

pub struct Encoding;

static JP: Encoding = Encoding;

impl Encoding {
    pub fn for_label(label: &[u8]) -> Option<&'static Encoding> {
        label.eq_ignore_ascii_case(b"iso-2022-jp").then_some(&JP)
    }

    /// Decodes and tells whether there were errors.
    pub fn decode_without_bom_handling<'a>(&'static self, bytes: &'a [u8]) -> (Cow<'a, str>, bool) {
        let mut out = String::new();
        let mut errors = false;
        let mut wide = false;
        let mut i = 0;
        while i < bytes.len() {
            let rest = &bytes[i..];
            match rest {
                [0x1b, b'(', b'B' | b'J', ..] => {
                    wide = false;
                    i += 3;
                }
                [0x1b, b'$', b'B' | b'@', ..] => {
                    wide = true;
                    i += 3;
                }
                [0x0e | 0x0f | 0x1b | 0x80.., ..] => {
                    errors = true;
                    out.push('\u{fffd}');
                    i += 1;
                }
                [b'\n', ..] if wide => {
                    wide = false;
                    out.push('\n');
                    i += 1;
                }
                [a @ 0x21..=0x7e, b @ 0x21..=0x7e, ..] if wide => {
                    out.push(char::from_u32(0x4e00 + (*a as u32 - 0x21) * 94 + (*b as u32 - 0x21)).unwrap());
                    i += 2;
                }
                [_, ..] if wide => {
                    errors = true;
                    out.push('\u{fffd}');
                    i += 1;
                }
                [c, ..] => {
                    out.push(*c as char);
                    i += 1;
                }
                [] => unreachable!(),
            }
        }
        (Cow::Owned(out), errors)
    }
}
