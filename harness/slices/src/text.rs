// Texts in several encodings, small enough in alphabet for their characters to meet.

#[path = "../../mounts/src/rstring/ranges.rs"]
mod ranges;

/// Characters of an encoding beyond ASCII.
pub fn alphabet(enc: Encoding) -> &'static [&'static [u8]] {
    match enc {
        Encoding::Utf8 => &[b"\xc3\xa9", b"\xc3\xa8", b"\xe3\x81\x82", b"\xe3\x81\x84", b"\xf0\x9f\x98\x80"],
        Encoding::EucJp => &[b"\xa4\xa2", b"\xa4\xa4", b"\x8e\xb1", b"\xa2\xa4"],
        // the second byte of a character may be that of an ASCII one
        Encoding::Sjis(_) => &[b"\x82\xa0", b"\x82\xa2", b"\x83\x5c", b"\xb1", b"\x81\x61"],
        Encoding::UsAscii => &[],
        _ => &[b"\x80", b"\xe9", b"\xff"],
    }
}

/// A character, as its bytes.
pub fn letter(g: &mut Src, enc: Encoding, ascii: &[u8]) -> Vec<u8> {
    let more = alphabet(enc);
    if more.is_empty() || g.chance(3, 5) { vec![g.pick(ascii)] } else { g.pick(more).to_vec() }
}

pub fn string(b: &[u8], enc: Encoding) -> Value {
    Value::string_from_inner(RStringInner::from_encoding_scanned(b, enc))
}

/// The characters of a text.
pub fn split_chars(b: &[u8], enc: Encoding) -> Vec<Vec<u8>> {
    let mut at = 0;
    ranges::chars(enc, b)
        .into_iter()
        .map(|n| {
            at += n;
            b[at - n..at].to_vec()
        })
        .collect()
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) => format!("{s:?}"),
        _ => b.escape_ascii().to_string(),
    }
}

pub fn outcome(r: &Result<Value>) -> String {
    match r {
        Ok(v) => match v.is_rstring_inner() {
            Some(s) => format!("{} ({:?})", show(s.as_bytes()), s.encoding()),
            None => format!("{v:?}"),
        },
        Err(e) => format!("{e:?}"),
    }
}

/// A string holds these bytes in this encoding, and answers for its characters accordingly.
pub fn holds(v: Value, b: &[u8], enc: Encoding) -> R {
    let Some(s) = v.is_rstring_inner() else { fail!("not a string but {v:?}") };
    ensure!(s.as_bytes() == b, "got {}, expected {}", show(s.as_bytes()), show(b));
    same!(s.encoding(), enc, "encoding of {}", show(b));
    same!(s.code_range(), ranges::class(enc, b), "range of {} in {enc:?}", show(b));
    same!(s.char_length(), ranges::chars(enc, b).len(), "length of {} in {enc:?}", show(b));
    Ok(())
}
