//! JSON text against the values it stands for.
#![allow(dead_code, unused)]
use pbt::*;
use std::collections::HashMap;
use std::marker::PhantomData;

// ---- what surrounds it --------------------------------------------------------------------------

pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub type BytecodePtr = ();
pub struct Executor;
pub struct Store;
pub struct Globals {
    pub store: Store,
}
#[derive(Debug)]
pub struct MonorubyErr(String);
impl MonorubyErr {
    pub fn runtimeerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr(msg.to_string())
    }
    pub fn typeerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr(msg.to_string())
    }
    pub fn argumenterr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr(msg.to_string())
    }
}
#[derive(Clone, Copy)]
pub struct Lfp(Value);
impl Lfp {
    pub fn arg(&self, _: usize) -> Value {
        self.0
    }
}
pub use num::BigInt;

#[derive(Clone, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(BigInt),
    Float(f64),
    Str(String),
    Sym(String),
    List(Vec<Value>),
    Dict(Vec<(Value, Value)>),
}

/// A value: a place in what the case has made.
#[derive(Clone, Copy)]
pub struct Value(*const J);

thread_local! {
    static HEAP: std::cell::RefCell<Vec<*const J>> = const { std::cell::RefCell::new(vec![]) };
}

fn free_all() {
    HEAP.with(|h| {
        for p in h.borrow_mut().drain(..) {
            drop(unsafe { Box::from_raw(p as *mut J) });
        }
    });
}

impl PartialEq for Value {
    fn eq(&self, o: &Value) -> bool {
        match (self.get(), o.get()) {
            (J::Null | J::Bool(_) | J::Int(_), _) => self.get() == o.get(),
            _ => self.0 == o.0,
        }
    }
}

/// What a method of numbers tells apart.
pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Symbol(&'a str),
    String(&'a str),
    Object(Value),
}

#[derive(Clone, Copy)]
pub struct List(&'static [Value]);
impl std::ops::Deref for List {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        self.0
    }
}
#[derive(Clone, Copy)]
pub struct Dict(&'static [(Value, Value)]);
impl Dict {
    pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> + '_ {
        self.0.iter().copied()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}

/// Pairs in order; a key met again keeps its place.
#[derive(Default)]
pub struct RubyMap {
    pairs: Vec<(Value, Value)>,
    index: HashMap<String, usize>,
}
impl RubyMap {
    pub fn insert(&mut self, k: Value, v: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
        let J::Str(s) = k.get() else { return Err(MonorubyErr("a key that is no string".into())) };
        Ok(match self.index.get(s) {
            Some(i) => Some(std::mem::replace(&mut self.pairs[*i].1, v)),
            None => {
                self.index.insert(s.clone(), self.pairs.len());
                self.pairs.push((k, v));
                None
            }
        })
    }
}

pub struct Text(&'static str);
impl Text {
    pub fn as_bytes(&self) -> &'static [u8] {
        self.0.as_bytes()
    }
    pub fn as_str(&self) -> &'static str {
        self.0
    }
}
impl std::ops::Deref for Text {
    type Target = str;
    fn deref(&self) -> &str {
        self.0
    }
}

const FIXNUMS: std::ops::Range<i64> = -(1 << 62)..1 << 62;

impl Value {
    fn of(j: J) -> Value {
        let p = Box::into_raw(Box::new(j)) as *const J;
        HEAP.with(|h| h.borrow_mut().push(p));
        Value(p)
    }
    fn get(&self) -> &'static J {
        unsafe { &*self.0 }
    }
    pub fn nil() -> Value {
        Value::of(J::Null)
    }
    pub fn bool(b: bool) -> Value {
        Value::of(J::Bool(b))
    }
    pub fn integer(i: i64) -> Value {
        Value::of(J::Int(i.into()))
    }
    pub fn bigint(b: BigInt) -> Value {
        Value::of(J::Int(b))
    }
    pub fn float(f: f64) -> Value {
        Value::of(J::Float(f))
    }
    pub fn string(s: impl Into<String>) -> Value {
        Value::of(J::Str(s.into()))
    }
    pub fn hash(m: RubyMap) -> Value {
        Value::of(J::Dict(m.pairs))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        Value::of(J::List(v))
    }
    pub fn is_nil(&self) -> bool {
        matches!(self.get(), J::Null)
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        use num::ToPrimitive;
        match self.get() {
            J::Int(i) => i.to_i64().filter(|i| FIXNUMS.contains(i)),
            _ => None,
        }
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.get() {
            J::Float(f) => Some(*f),
            _ => None,
        }
    }
    pub fn is_integer(&self) -> bool {
        matches!(self.get(), J::Int(_))
    }
    pub fn is_str(&self) -> Option<&'static str> {
        match self.get() {
            J::Str(s) => Some(s),
            _ => None,
        }
    }
    pub fn try_array_ty(&self) -> Option<List> {
        match self.get() {
            J::List(v) => Some(List(v)),
            _ => None,
        }
    }
    pub fn try_hash_ty(&self) -> Option<Dict> {
        match self.get() {
            J::Dict(v) => Some(Dict(v)),
            _ => None,
        }
    }
    pub fn unpack(&self) -> RV<'static> {
        match self.get() {
            J::Null => RV::Nil,
            J::Bool(b) => RV::Bool(*b),
            J::Int(i) => self.try_fixnum().map_or(RV::BigInt(i), RV::Fixnum),
            J::Float(f) => RV::Float(*f),
            J::Str(s) => RV::String(s),
            J::Sym(s) => RV::Symbol(s),
            _ => RV::Object(*self),
        }
    }
    pub fn expect_string(&self, _: &Globals) -> Result<String> {
        self.is_str().map(|s| s.to_string()).ok_or_else(|| MonorubyErr::typeerr("no string"))
    }
    pub fn to_s(&self, _: &Store) -> String {
        match self.get() {
            J::Null => String::new(),
            J::Bool(b) => b.to_string(),
            J::Int(i) => i.to_string(),
            J::Float(f) => format!("{f:?}"),
            J::Str(s) | J::Sym(s) => s.clone(),
            _ => panic!("a collection as a name"),
        }
    }
}

/// The shortest decimals, as the library the interpreter uses gives them.
pub mod dtoa {
    #[derive(Default)]
    pub struct Buffer(String);
    impl Buffer {
        pub fn new() -> Buffer {
            Buffer::default()
        }
        pub fn format(&mut self, f: f64) -> &str {
            self.0 = format!("{f:?}");
            &self.0
        }
    }
}

mod json {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/json.rs"));
}

fn parse(text: &str) -> Result<Value> {
    json::json_parse(&mut Executor, &mut Globals { store: Store }, Lfp(Value::string(text)), ())
}

fn generate(v: Value) -> Result<String> {
    let v = json::json_generate(&mut Executor, &mut Globals { store: Store }, Lfp(v), ())?;
    Ok(v.is_str().unwrap().to_string())
}

// ---- the reference ------------------------------------------------------------------------------

/// A value as the reference sees it; names are in order and each stands once.
#[derive(Clone, PartialEq)]
enum M {
    Null,
    Bool(bool),
    Int(BigInt),
    Float(u64),
    Str(String),
    List(Vec<M>),
    Dict(Vec<(String, M)>),
}

impl std::fmt::Debug for M {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            M::Null => write!(f, "nil"),
            M::Bool(b) => write!(f, "{b}"),
            M::Int(i) => write!(f, "{i}"),
            M::Float(x) => write!(f, "{:?}f", f64::from_bits(*x)),
            M::Str(s) => write!(f, "{s:?}"),
            M::List(v) => write!(f, "{v:?}"),
            M::Dict(v) => f.debug_map().entries(v.iter().map(|(k, v)| (k, v))).finish(),
        }
    }
}

fn read(v: Value) -> M {
    match v.get() {
        J::Null => M::Null,
        J::Bool(b) => M::Bool(*b),
        J::Int(i) => M::Int(i.clone()),
        J::Float(f) => M::Float(f.to_bits()),
        J::Str(s) | J::Sym(s) => M::Str(s.clone()),
        J::List(v) => M::List(v.iter().map(|v| read(*v)).collect()),
        J::Dict(v) => M::Dict(v.iter().map(|(k, v)| (k.to_s(&Store), read(*v))).collect()),
    }
}

fn build(m: &M) -> Value {
    Value::of(match m {
        M::Null => J::Null,
        M::Bool(b) => J::Bool(*b),
        M::Int(i) => J::Int(i.clone()),
        M::Float(f) => J::Float(f64::from_bits(*f)),
        M::Str(s) => J::Str(s.clone()),
        M::List(v) => J::List(v.iter().map(build).collect()),
        M::Dict(v) => J::Dict(v.iter().map(|(k, v)| (Value::string(k.clone()), build(v))).collect()),
    })
}

/// Reads text by the grammar of RFC 8259, nothing more and nothing less.
struct Strict<'a> {
    t: &'a [char],
    at: usize,
    /// How many names stood twice, and how deep it went.
    again: usize,
    depth: usize,
    deepest: usize,
}

impl Strict<'_> {
    fn all(text: &str) -> Option<(M, usize, usize)> {
        let t: Vec<char> = text.chars().collect();
        let mut s = Strict { t: &t, at: 0, again: 0, depth: 0, deepest: 0 };
        let v = s.value()?;
        (s.at == t.len()).then_some((v, s.again, s.deepest))
    }
    fn peek(&self) -> Option<char> {
        self.t.get(self.at).copied()
    }
    fn eat(&mut self, c: char) -> bool {
        let is = self.peek() == Some(c);
        self.at += is as usize;
        is
    }
    fn space(&mut self) {
        while matches!(self.peek(), Some(' ' | '\t' | '\n' | '\r')) {
            self.at += 1;
        }
    }
    fn word(&mut self, w: &str, m: M) -> Option<M> {
        w.chars().all(|c| self.eat(c)).then_some(m)
    }
    fn value(&mut self) -> Option<M> {
        self.space();
        let v = match self.peek()? {
            'n' => self.word("null", M::Null),
            't' => self.word("true", M::Bool(true)),
            'f' => self.word("false", M::Bool(false)),
            '"' => self.text().map(M::Str),
            '[' => {
                self.at += 1;
                self.depth += 1;
                self.deepest = self.deepest.max(self.depth);
                let mut v = vec![];
                self.space();
                if !self.eat(']') {
                    loop {
                        v.push(self.value()?);
                        if self.eat(']') {
                            break;
                        }
                        if !self.eat(',') {
                            return None;
                        }
                    }
                }
                self.depth -= 1;
                Some(M::List(v))
            }
            '{' => {
                self.at += 1;
                self.depth += 1;
                self.deepest = self.deepest.max(self.depth);
                let mut v: Vec<(String, M)> = vec![];
                self.space();
                if !self.eat('}') {
                    loop {
                        self.space();
                        let k = self.text()?;
                        self.space();
                        if !self.eat(':') {
                            return None;
                        }
                        let x = self.value()?;
                        match v.iter_mut().find(|(n, _)| *n == k) {
                            Some((_, old)) => {
                                *old = x;
                                self.again += 1;
                            }
                            None => v.push((k, x)),
                        }
                        if self.eat('}') {
                            break;
                        }
                        if !self.eat(',') {
                            return None;
                        }
                    }
                }
                self.depth -= 1;
                Some(M::Dict(v))
            }
            _ => self.number(),
        }?;
        self.space();
        Some(v)
    }
    fn digits(&mut self) -> usize {
        let from = self.at;
        while matches!(self.peek(), Some('0'..='9')) {
            self.at += 1;
        }
        self.at - from
    }
    fn number(&mut self) -> Option<M> {
        let from = self.at;
        self.eat('-');
        if !self.eat('0') && self.digits() == 0 {
            return None;
        }
        let whole = self.at;
        if self.eat('.') && self.digits() == 0 {
            return None;
        }
        if self.eat('e') || self.eat('E') {
            let _ = self.eat('+') || self.eat('-');
            if self.digits() == 0 {
                return None;
            }
        }
        let text: String = self.t[from..self.at].iter().collect();
        Some(if self.at == whole {
            M::Int(text.parse().ok()?)
        } else {
            M::Float(text.parse::<f64>().ok()?.to_bits())
        })
    }
    fn unit(&mut self) -> Option<u32> {
        let mut n = 0;
        for _ in 0..4 {
            n = n * 16 + self.peek()?.to_digit(16)?;
            self.at += 1;
        }
        Some(n)
    }
    fn text(&mut self) -> Option<String> {
        if !self.eat('"') {
            return None;
        }
        let mut units: Vec<u16> = vec![];
        loop {
            let c = self.peek()?;
            self.at += 1;
            match c {
                '"' => return String::from_utf16(&units).ok(),
                '\\' => {
                    let e = self.peek()?;
                    self.at += 1;
                    units.push(match e {
                        '"' | '\\' | '/' => e as u16,
                        'b' => 8,
                        'f' => 12,
                        'n' => 10,
                        'r' => 13,
                        't' => 9,
                        'u' => self.unit()? as u16,
                        _ => return None,
                    });
                }
                c if c < ' ' => return None,
                c => units.extend(c.encode_utf16(&mut [0; 2]).iter()),
            }
        }
    }
}

// ---- generation ---------------------------------------------------------------------------------

fn gen_char(src: &mut Src) -> char {
    match src.below(6) {
        0 | 1 => (b'a' + src.below(4) as u8) as char,
        2 => src.pick(&['"', '\\', '/', '\u{8}', '\u{c}', '\n', '\r', '\t', '\0', '\u{1f}', '\u{7f}', ' ']),
        3 => src.pick(&['é', '\u{7ff}', '\u{800}', '日', '\u{2028}', '\u{fffd}', '\u{ffff}', '\u{d7ff}', '\u{e000}']),
        4 => src.pick(&['\u{10000}', '😀', '\u{10ffff}', '\u{103ff}', '\u{10400}']),
        _ => char::from_u32(src.below(0x110000) as u32).unwrap_or('x'),
    }
}

fn gen_text(src: &mut Src) -> String {
    (0..src.len(9)).map(|_| gen_char(src)).collect()
}

fn gen_int(src: &mut Src) -> BigInt {
    let n = match src.below(4) {
        0 => BigInt::from(src.below(12)),
        1 => BigInt::from(src.u64()),
        2 => (BigInt::from(1) << src.pick(&[31u32, 32, 53, 62, 63, 64, 200])) - src.below(2) as i64,
        _ => BigInt::from(src.u64()) * src.u64() * src.u64(),
    };
    if src.bool() { -n } else { n }
}

fn gen_float(src: &mut Src) -> f64 {
    let f = match src.below(4) {
        0 => src.below(1000) as f64 / 8.0,
        1 => src.pick(&[0.0, -0.0, 1e16, 1e15, 123456789012345680.0, 1e-5, 1e-4, 1e21, 5e-324, f64::MAX, 1e100]),
        2 => src.below(1 << 40) as f64,
        _ => f64::from_bits(src.u64()),
    };
    let f = if f.is_finite() { f } else { 2.5 };
    if src.chance(1, 4) { -f } else { f }
}

fn gen_value(src: &mut Src, depth: usize) -> M {
    src.begin();
    let v = match src.below(if depth == 0 { 6 } else { 10 }) {
        0 => M::Null,
        1 => M::Bool(src.bool()),
        2 => M::Int(gen_int(src)),
        3 => M::Float(gen_float(src).to_bits()),
        4 | 5 => M::Str(gen_text(src)),
        6 | 7 => M::List((0..src.len(5)).map(|_| gen_value(src, depth - 1)).collect()),
        _ => {
            let mut v: Vec<(String, M)> = vec![];
            for _ in 0..src.len(5) {
                let k = gen_text(src);
                let x = gen_value(src, depth - 1);
                if v.iter().all(|(n, _)| *n != k) {
                    v.push((k, x));
                }
            }
            M::Dict(v)
        }
    };
    src.end();
    v
}

/// Mostly a collection.
fn gen_top(src: &mut Src, depth: usize) -> M {
    if src.chance(1, 4) {
        return gen_value(src, depth);
    }
    let n = 1 + src.len(4);
    if src.bool() {
        return M::List((0..n).map(|_| gen_value(src, depth - 1)).collect());
    }
    let mut v: Vec<(String, M)> = vec![];
    for _ in 0..n {
        let k = gen_text(src);
        let x = gen_value(src, depth - 1);
        if v.iter().all(|(n, _)| *n != k) {
            v.push((k, x));
        }
    }
    M::Dict(v)
}

/// Any of the texts that stand for a value.
fn write(src: &mut Src, m: &M, out: &mut String) {
    let gap = |src: &mut Src, out: &mut String| {
        while src.chance(1, 5) {
            out.push(src.pick(&[' ', '\t', '\n', '\r']));
        }
    };
    let text = |src: &mut Src, s: &str, out: &mut String| {
        out.push('"');
        for c in s.chars() {
            let short = match c {
                '"' => Some('"'),
                '\\' => Some('\\'),
                '/' => Some('/'),
                '\u{8}' => Some('b'),
                '\u{c}' => Some('f'),
                '\n' => Some('n'),
                '\r' => Some('r'),
                '\t' => Some('t'),
                _ => None,
            };
            let plain = c >= ' ' && c != '"' && c != '\\';
            match src.below(3) {
                0 if plain => out.push(c),
                1 if short.is_some() => {
                    out.push('\\');
                    out.push(short.unwrap());
                }
                2 if plain && src.bool() => out.push(c),
                _ => {
                    for u in c.encode_utf16(&mut [0; 2]) {
                        let hex = if src.bool() { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") };
                        out.push_str(&hex);
                    }
                }
            }
        }
        out.push('"');
    };
    gap(src, out);
    match m {
        M::Null => out.push_str("null"),
        M::Bool(b) => out.push_str(&b.to_string()),
        M::Int(i) => out.push_str(&i.to_string()),
        M::Float(f) => {
            let f = f64::from_bits(*f);
            match src.below(3) {
                0 => out.push_str(&format!("{f:?}")),
                1 => {
                    let e = format!("{f:e}");
                    let e = if src.bool() { e.replace('e', "e+").replace("+-", "-") } else { e };
                    out.push_str(&if src.bool() { e.to_uppercase() } else { e });
                }
                _ => out.push_str(&format!("{f:.400}")),
            }
        }
        M::Str(s) => text(src, s, out),
        M::List(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                write(src, x, out);
            }
            gap(src, out);
            out.push(']');
        }
        M::Dict(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                gap(src, out);
                text(src, k, out);
                gap(src, out);
                out.push(':');
                write(src, x, out);
            }
            gap(src, out);
            out.push('}');
        }
    }
    gap(src, out);
}

/// `0.0` and `-0.0` aside, floats are told apart bit by bit.
fn parts(m: &M) -> usize {
    match m {
        M::List(v) => 1 + v.iter().map(parts).sum::<usize>(),
        M::Dict(v) => 1 + v.iter().map(|(_, v)| parts(v)).sum::<usize>(),
        _ => 1,
    }
}

fn guarded<T>(what: &str, f: impl FnOnce() -> T) -> std::result::Result<T, String> {
    pbt::catch(f).map_err(|e| format!("{what} panicked: {e}"))
}

/// Every text for a value is read as that value.
fn reading(src: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let m = gen_top(src, 4);
    let mut text = String::new();
    write(src, &m, &mut text);
    note!(cx, "{text:?}");
    let got = guarded("parsing", || parse(&text))?;
    match got {
        Ok(v) => same!(read(v), m, "parsed"),
        Err(e) => fail!("refused: {}", e.0),
    }
    if parts(&m) > 2 {
        cx.nontrivial();
    }
    Ok(())
}

/// What is written reads back, by the grammar and by the parser.
fn writing(src: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let m = gen_top(src, 4);
    note!(cx, "{m:?}");
    let text = match guarded("generating", || generate(build(&m)))? {
        Ok(t) => t,
        Err(e) => fail!("refused: {}", e.0),
    };
    match Strict::all(&text) {
        Some((v, ..)) => same!(v, m, "what {text:?} stands for"),
        None => fail!("{text:?} is not JSON"),
    }
    match guarded("parsing", || parse(&text))? {
        Ok(v) => same!(read(v), m, "{text:?} parsed"),
        Err(e) => fail!("{text:?} refused: {}", e.0),
    }
    ensure!(!text.contains([' ', '\n']) || has_space(&m), "{text:?} has spaces between its parts");
    if parts(&m) > 2 {
        cx.nontrivial();
    }
    Ok(())
}

fn has_space(m: &M) -> bool {
    match m {
        M::Str(s) => s.contains(' '),
        M::List(v) => v.iter().any(has_space),
        M::Dict(v) => v.iter().any(|(k, v)| k.contains(' ') || has_space(v)),
        _ => false,
    }
}

/// Names that are no strings are written as the text they stand for; symbols as strings.
fn names(src: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let scalar = |src: &mut Src| match src.below(6) {
        0 => J::Null,
        1 => J::Bool(src.bool()),
        2 => J::Int(gen_int(src)),
        3 => J::Float(gen_float(src)),
        4 => J::Sym(gen_text(src)),
        _ => J::Str(gen_text(src)),
    };
    let pairs: Vec<(Value, Value)> =
        (0..src.len(6)).map(|_| (Value::of(scalar(src)), Value::of(scalar(src)))).collect();
    let mut want: Vec<(String, M)> = vec![];
    for (k, v) in &pairs {
        let k = k.to_s(&Store);
        match want.iter_mut().find(|(n, _)| *n == k) {
            Some((_, old)) => *old = read(*v),
            None => want.push((k, read(*v))),
        }
    }
    let n = pairs.len();
    let text = match guarded("generating", || generate(Value::of(J::Dict(pairs))))? {
        Ok(t) => t,
        Err(e) => fail!("refused: {}", e.0),
    };
    note!(cx, "{text:?}");
    match Strict::all(&text) {
        Some((v, ..)) => same!(v, M::Dict(want), "what {text:?} stands for"),
        None => fail!("{text:?} is not JSON"),
    }
    if n > 1 {
        cx.nontrivial();
    }
    Ok(())
}

/// What breaks the grammar is refused; what does not is read as the grammar says.
fn broken(src: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let mut text = String::new();
    if src.chance(1, 3) {
        const BITS: &[&str] = &[
            "[", "]", "{", "}", ",", ":", "\"", "null", "true", "false", "0", "1", "-", ".", "e", "E", "+", " ", "\"a\"", "\"a\":", "01",
            "1.5", "nul", "tru", "NaN", "Infinity", "'", "\\", "\\u00", "\"\\u0041\"", "[]", "{}", "[1", ",1]", "{\"a\":1}", "\u{a0}", "\u{feff}", "\u{b}",
        ];
        for _ in 0..src.len(9) {
            text.push_str(src.pick(BITS));
        }
    } else {
        let m = gen_top(src, 3);
        write(src, &m, &mut text);
        for _ in 0..1 + src.below(2) {
            let mut t: Vec<char> = text.chars().collect();
            let at = src.usize(t.len() + 1);
            match src.below(4) {
                0 if at < t.len() => {
                    t.remove(at);
                }
                1 => t.truncate(at),
                2 if at < t.len() => t[at] = src.pick(&['"', ',', ':', '[', ']', '{', '}', '0', '1', '-', '.', 'e', ' ', 'x', 'n']),
                _ => t.insert(at, src.pick(&['"', ',', ':', '[', ']', '{', '}', '0', '1', '-', '.', 'e', ' ', 'x', 'n', '\u{c}', '\u{b}'])),
            }
            text = t.into_iter().collect();
        }
    }
    // Strings are read more generously than the grammar says: control characters, escapes of other
    // letters and lone halves of characters are not refused.
    let generous = text.contains('\\') || text.contains(|c: char| c < ' ' && !"\t\n\r".contains(c)) || text.contains('"') && text.contains(['\t', '\n', '\r']);
    let want = Strict::all(&text);
    note!(cx, "{text:?}");
    let got = guarded("parsing", || parse(&text))?;
    match (&want, got) {
        (Some((m, ..)), Ok(v)) => same!(read(v), m.clone(), "parsed"),
        (Some(_), Err(e)) => fail!("refused: {}", e.0),
        (None, Ok(v)) if !generous => fail!("not JSON, and read as {:?}", read(v)),
        _ => {}
    }
    cx.label(match (&want, generous) {
        (Some(_), _) => "whole",
        (None, true) => "generous",
        (None, false) => "broken",
    });
    if want.is_none() && !generous {
        cx.nontrivial();
    }
    Ok(())
}

/// However deep it goes, the process survives.
fn deep(src: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let n = src.pick(&[50usize, 99, 100, 101, 1000, 20_000, 300_000]);
    let n = n + src.usize(3);
    let (open, close) = if src.bool() { ("[", "]") } else { ("{\"a\":", "}") };
    let mut text = open.repeat(n);
    text.push_str("1");
    if src.bool() {
        text.push_str(&close.repeat(n));
    }
    note!(cx, "{n} times {open}");
    let got = guarded("parsing", || parse(&text).map(|_| ()))?;
    if n <= 100 && text.ends_with(close) {
        ensure!(got.is_ok(), "refused at depth {n}");
    }
    let mut v = Value::integer(1);
    for _ in 0..n {
        v = if open == "[" { Value::of(J::List(vec![v])) } else { Value::of(J::Dict(vec![(Value::string("a"), v)])) };
    }
    let got = guarded("generating", || generate(v).map(|_| ()))?;
    if n <= 100 {
        ensure!(got.is_ok(), "not written at depth {n}");
    }
    if n > 100 {
        cx.nontrivial();
    }
    Ok(())
}

const C54: Prop = Prop {
    id: "C54",
    rule: "reading and writing: more than two values; names: more than one pair; broken: neither whole nor a string read generously; deep: more than 100 levels",
    assumptions: &[
        "values are stand-ins; the hash that collects the pairs is a list with a key met again in its place",
        "how strings that break the grammar are read is not judged",
    ],
    level: "exploration",
    suites: &[
        Suite { name: "reading", cases: 1_200_000, run: reading },
        Suite { name: "writing", cases: 1_200_000, run: writing },
        Suite { name: "names", cases: 600_000, run: names },
        Suite { name: "broken", cases: 2_400_000, run: broken },
        Suite { name: "deep", cases: 60, run: deep },
    ],
    known: &[],
};

fn main() {
    pbt::main(&[C54]);
}
