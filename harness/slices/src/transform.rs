//! C42: the methods of String that turn it into another, or compare it with one.

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");
include!("text.rs");

use crate::rvalue::{eucjp_char_width, sjis_char_width, string_substring};

mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce.rs"));
}
pub mod builtins {
    use super::*;
    include!("text_only.rs");
    pub mod encoding {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/encoding_units.rs"));
    }
    pub mod string {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/string_transform.rs"));

        fn scrub_inner_with_block(_: &mut Executor, _: &mut Globals, _: &RStringInner, _: BlockHandler) -> Result<RStringInner> {
            unreachable!()
        }
    }
}

/// Categories of the characters of ASCII; beyond, letters are letters and nothing else is told.
pub mod unicode_general_category {
    #[allow(non_camel_case_types)]
    pub enum GeneralCategory {
        DecimalNumber,
        EnclosingMark,
        SpacingMark,
        NonspacingMark,
        LetterNumber,
        OtherLetter,
        ModifierLetter,
        LowercaseLetter,
        UppercaseLetter,
        TitlecaseLetter,
        OtherSymbol,
    }
    pub fn get_general_category(c: char) -> GeneralCategory {
        match c {
            '0'..='9' => GeneralCategory::DecimalNumber,
            'a'..='z' => GeneralCategory::LowercaseLetter,
            'A'..='Z' => GeneralCategory::UppercaseLetter,
            _ if c.is_alphabetic() => GeneralCategory::OtherLetter,
            _ => GeneralCategory::OtherSymbol,
        }
    }
}

#[path = "transform/changes.rs"]
mod changes;

fn main() {
    pbt::main(&[changes::PROP]);
}
