//! C35: strings that share a buffer behave as if each had its own, whatever is written, dropped and
//! collected, and generated code reads and writes them through the published layout.

use super::ranges::{chars, class, cut, encoding, text};
use super::*;
use rvalue::string::{
    STRING_CR_OFFSET, STRING_SHARED_TAG, STRING_TY_OFFSET, check_string_not_modified, share_string_buffer, string_snapshot, string_substring,
};

struct Entry {
    v: Value,
    b: Vec<u8>,
    enc: Encoding,
    frozen: bool,
}

/// The memory of a string as generated code sees it.
struct Raw {
    base: *mut u8,
}

impl Raw {
    fn of(v: Value) -> Raw {
        Raw { base: v.id() as *mut u8 }
    }
    unsafe fn word(&self, off: usize) -> usize {
        unsafe { (self.base.add(off) as *const usize).read() }
    }
    fn capa(&self) -> usize {
        unsafe { self.word(RVALUE_OFFSET_KIND + smallvec::OFFSET_CAPA) }
    }
    fn heap(&self) -> bool {
        self.capa() as isize > STRING_INLINE_CAP as isize
    }
    fn data(&self) -> *mut u8 {
        unsafe {
            if self.heap() {
                self.word(RVALUE_OFFSET_KIND + smallvec::OFFSET_HEAP_PTR) as *mut u8
            } else {
                self.base.add(RVALUE_OFFSET_KIND + smallvec::OFFSET_INLINE)
            }
        }
    }
    fn len_at(&self) -> *mut usize {
        let off = if self.heap() { smallvec::OFFSET_HEAP_LEN } else { smallvec::OFFSET_CAPA };
        unsafe { self.base.add(RVALUE_OFFSET_KIND + off) as *mut usize }
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.data(), *self.len_at()) }
    }
    fn cr(&self) -> u8 {
        unsafe { *self.base.add(STRING_CR_OFFSET) }
    }
    fn set_cr(&self, cr: CodeRange) {
        unsafe { *self.base.add(STRING_CR_OFFSET) = cr as u8 }
    }
    fn ty(&self) -> u8 {
        unsafe { *self.base.add(STRING_TY_OFFSET) }
    }
}

/// String#setbyte as generated code does it: true if it did.
fn setbyte(v: Value, at: usize, byte: u8) -> bool {
    let r = Raw::of(v);
    if r.capa() == STRING_SHARED_TAG {
        return false;
    }
    unsafe { *r.data().add(at) = byte };
    r.set_cr(CodeRange::Unknown);
    true
}

/// String#<< with a string as generated code does it: true if it did.
fn append(mut v: Value, arg: Value) -> bool {
    let (r, a) = (Raw::of(v), Raw::of(arg));
    if r.ty() == a.ty() {
        if r.ty() > 6 {
            return false;
        }
    } else if r.ty() > 2 || a.ty() > 2 || a.cr() != CodeRange::SevenBit as u8 || !matches!(r.cr(), 1 | 2) {
        return false;
    }
    if r.capa() == STRING_SHARED_TAG {
        v.as_rstring_inner_mut().detach();
    }
    let len = unsafe { *r.len_at() };
    let capa = if r.heap() { r.capa() } else { STRING_INLINE_CAP };
    let (from, n) = (a.data(), unsafe { *a.len_at() });
    if len + n > capa {
        return false;
    }
    unsafe {
        let to = r.data().add(len);
        for i in 0..n {
            *to.add(i) = *from.add(i);
        }
        *r.len_at() = len + n;
    }
    let (x, y) = (r.cr().wrapping_sub(1), a.cr().wrapping_sub(1));
    if x > 1 || y > 1 {
        r.set_cr(CodeRange::Unknown);
    } else if x | y != 0 {
        r.set_cr(CodeRange::Valid);
    }
    true
}

fn check(pool: &[Entry]) -> R {
    for (i, e) in pool.iter().enumerate() {
        let s = e.v.as_rstring_inner();
        ensure!(s.as_bytes() == &e.b[..], "string {i} is {:x?}, expected {:x?}", s.as_bytes(), e.b);
        same!(s.encoding(), e.enc, "encoding of string {i}");
        same!(e.v.is_frozen(), e.frozen, "string {i} frozen");
        same!(s.clone().code_range(), class(e.enc, &e.b), "code range of string {i}, {:x?} in {:?}", e.b, e.enc);
        let r = Raw::of(e.v);
        ensure!(r.bytes() == &e.b[..], "string {i} read through the layout is {:x?}, expected {:x?}", r.bytes(), e.b);
        ensure!((r.ty() == 0) == (e.enc == Encoding::Ascii8), "the encoding tag of {:?} reads {}", e.enc, r.ty());
        let cr = [None, Some(CodeRange::SevenBit), Some(CodeRange::Valid), Some(CodeRange::Broken)].get(r.cr() as usize).copied();
        match cr {
            None => fail!("the code range of string {i} reads {}", r.cr()),
            Some(Some(c)) => same!(c, class(e.enc, &e.b), "the code range of string {i} as read through the layout"),
            _ => {}
        }
    }
    Ok(())
}

fn fresh(src: &mut Src, cx: &mut Cx) -> (RStringInner, Vec<u8>, Encoding) {
    let enc = if src.bool() { Encoding::Utf8 } else { encoding(src) };
    let n = src.pick(&[0usize, 20, 31, 32, 33, 40, 64, 100, 300]);
    let mut b = text(src, enc, 4);
    if b.is_empty() {
        b.push(b'a');
    }
    let mut i = 0;
    while b.len() < n {
        b.push(b[i]);
        i += 1;
    }
    b.truncate(n);
    let s = match src.below(5) {
        0 => {
            // more room than the bytes need
            let mut v = Vec::with_capacity(n + src.usize(80));
            v.extend_from_slice(&b);
            let mut s = RStringInner::bytes_from_vec(v);
            s.set_encoding(enc);
            s
        }
        1 => {
            let mut s = RStringInner::with_encoding_capacity(enc, src.usize(200));
            s.extend_from_slice_merge_cr(&b);
            s
        }
        2 => RStringInner::from_encoding_scanned(&b, enc),
        _ => RStringInner::from_encoding(&b, enc),
    };
    (s, b, enc)
}

fn histories(src: &mut Src, cx: &mut Cx) -> R {
    let r = history(src, cx);
    sweep_all();
    r
}

fn history(src: &mut Src, cx: &mut Cx) -> R {
    let store = Store;
    let mut pool: Vec<Entry> = vec![];
    let provoke = src.weighted(&[2, 1, 1]);
    let before = collections();
    let (mut views, mut writes) = (0, 0);
    while src.more(25) {
        src.begin();
        let roots: Vec<Value> = pool.iter().map(|e| e.v).collect();
        collect_on_alloc([None, Some(true), Some(false)][provoke], &roots);
        let what = if pool.is_empty() { 0 } else { src.weighted(&[3, 8, 3, 2, 4, 2, 8, 4, 4, 3, 2, 2, 3, 3]) };
        let i = src.usize(pool.len().max(1));
        let j = src.usize(pool.len().max(1));
        match what {
            0 => {
                let (s, b, enc) = fresh(src, cx);
                note!(cx, "{}: new {b:x?} {enc:?}", pool.len());
                let v = Value::string_from_inner(s);
                pool.push(Entry { v, b, enc, frozen: false });
            }
            1 => {
                let e = &pool[i];
                let (from, to) = if src.bool() {
                    // long enough to be worth a view
                    let from = src.usize(e.b.len() / 3 + 1);
                    (from, e.b.len() - src.usize(e.b.len() / 3 + 1))
                } else {
                    cut(src, e.enc, &e.b)
                };
                let (from, to) = (from.min(to), to);
                note!(cx, "{}: substring {from}..{to} of {i}", pool.len());
                let v = string_substring(e.v, from, to);
                views += v.as_rstring_inner().is_shared() as usize;
                let new = Entry { v, b: e.b[from..to].to_vec(), enc: e.enc, frozen: false };
                pool.push(new);
            }
            2 => {
                note!(cx, "{}: snapshot of {i}", pool.len());
                let e = &pool[i];
                let v = string_snapshot(e.v);
                views += pool[i].v.as_rstring_inner().is_shared() as usize;
                let e = &pool[i];
                let new = Entry { v, b: e.b.clone(), enc: e.enc, frozen: true };
                pool.push(new);
            }
            3 => {
                note!(cx, "{i}: share_string_buffer");
                share_string_buffer(&mut pool[i].v);
                views += pool[i].v.as_rstring_inner().is_shared() as usize;
            }
            4 => {
                note!(cx, "{}: copy of {i}", pool.len());
                let e = &pool[i];
                let v = Value::string_from_inner(e.v.as_rstring_inner().clone());
                let new = Entry { v, b: e.b.clone(), enc: e.enc, frozen: false };
                pool.push(new);
            }
            5 => {
                note!(cx, "{i}: freeze");
                pool[i].v.set_frozen();
                let v = pool[i].v;
                for e in &mut pool {
                    e.frozen |= e.v == v;
                }
            }
            6 if !pool[i].frozen => {
                writes += 1;
                write(src, cx, &mut pool, i, j, &store)?;
            }
            7 if !pool[i].frozen && !pool[i].b.is_empty() => {
                let at = src.usize(pool[i].b.len());
                let byte = src.u8();
                note!(cx, "{i}: setbyte in generated code: {at} {byte:x}");
                if setbyte(pool[i].v, at, byte) {
                    writes += 1;
                    pool[i].b[at] = byte;
                }
            }
            8 if !pool[i].frozen => {
                note!(cx, "{i}: append {j} in generated code");
                if append(pool[i].v, pool[j].v) {
                    writes += 1;
                    let b = pool[j].b.clone();
                    pool[i].b.extend(b);
                }
            }
            9 if !pool[i].frozen => {
                // String#replace
                note!(cx, "{i}: replaced by {j}");
                writes += 1;
                let s = pool[j].v.as_rstring_inner().clone();
                *pool[i].v.as_rstring_inner_mut() = s;
                pool[i].v.write_barrier_bulk();
                (pool[i].b, pool[i].enc) = (pool[j].b.clone(), pool[j].enc);
            }
            10 => {
                let minor = src.bool();
                note!(cx, "{} collection", if minor { "minor" } else { "major" });
                collect(&roots, minor);
            }
            11 => {
                note!(cx, "{i}: dropped");
                pool.swap_remove(i);
            }
            12 => {
                note!(cx, "{i}: code_range");
                pool[i].v.as_rstring_inner().code_range();
            }
            13 => {
                let n = if src.bool() { pool[i].b.len() } else { src.usize(pool[i].b.len() + 2) };
                note!(cx, "{i}: modified since it had length {n}?");
                same!(check_string_not_modified(pool[i].v, n).is_ok(), n == pool[i].b.len(), "string of length {} compared with {n}", pool[i].b.len());
            }
            _ => {}
        }
        collect_on_alloc(None, &[]);
        check(&pool)?;
        src.end();
    }
    if views > 0 && writes > 0 && collections() > before {
        cx.nontrivial();
    }
    Ok(())
}

fn write(src: &mut Src, cx: &mut Cx, pool: &mut [Entry], i: usize, j: usize, store: &Store) -> R {
    let other = pool[j].v.as_rstring_inner().clone();
    let (ob, oe) = (pool[j].b.clone(), pool[j].enc);
    let e = &mut pool[i];
    let s = e.v.as_rstring_inner_mut();
    if e.b.len() > 600 {
        note!(cx, "{i}: cut down");
        *s = RStringInner::from_encoding(&e.b[..50], e.enc);
        e.b.truncate(50);
        return Ok(());
    }
    match src.below(9) {
        0 => {
            let t = text(src, e.enc, 3);
            note!(cx, "{i}: extend_from_slice_no_validate {t:x?}");
            s.extend_from_slice_no_validate(&t);
            e.b.extend_from_slice(&t);
        }
        1 => {
            let t = text(src, e.enc, 3);
            note!(cx, "{i}: extend_from_slice_merge_cr {t:x?}");
            s.extend_from_slice_merge_cr(&t);
            e.b.extend_from_slice(&t);
        }
        2 => {
            let t = text(src, e.enc, 3);
            note!(cx, "{i}: extend_from_slice_checked {t:x?}");
            if s.extend_from_slice_checked(&t).is_ok() {
                e.b.extend_from_slice(&t);
            }
        }
        3 if !e.b.is_empty() => {
            let (at, byte) = (src.usize(e.b.len()), src.u8());
            note!(cx, "{i}: set_byte {at} {byte:x}");
            s.set_byte(at, byte);
            e.b[at] = byte;
        }
        4 => {
            let enc = encoding(src);
            note!(cx, "{i}: set_encoding {enc:?}");
            s.set_encoding(enc);
            e.enc = enc;
        }
        5 => {
            note!(cx, "{i}: extend by {j}");
            if s.extend(&other, store).is_ok() {
                e.b.extend_from_slice(&ob);
                e.enc = s.encoding();
            }
        }
        6 => {
            let (from, to) = cut(src, e.enc, &e.b);
            note!(cx, "{i}: bytesplice {from}..{to} with {j}");
            if s.bytesplice_with(from, to - from, &other, store).is_ok() {
                e.b.splice(from..to, ob);
                e.enc = s.encoding();
            }
        }
        7 if !e.b.is_empty() => {
            let (at, byte) = (src.usize(e.b.len()), src.u8());
            note!(cx, "{i}: written through a pointer: {at} {byte:x}");
            unsafe { *s.nul_terminated_buf_ptr().add(at) = byte };
            e.b[at] = byte;
        }
        _ => {
            note!(cx, "{i}: detach");
            s.detach();
        }
    }
    Ok(())
}

pub const PROP: Prop = Prop {
    id: "C35",
    rule: "histories over a pool of strings of lengths around the inline limit, with substrings, snapshots, copies, writes and collections; non-trivial if a view of another string's buffer was made, a string was written to and a collection ran",
    assumptions: &[
        "a collector that frees what nothing refers to, and remembers old objects only when told",
        "generated code follows the instruction sequences in the code generator",
        "smallvec is a stand-in with the documented layout",
    ],
    level: "exploration",
    suites: &[Suite { name: "histories", cases: 450_000, run: histories }],
    known: &[],
};
