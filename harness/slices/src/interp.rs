// Stand-ins for the frames, arrays and hashes that methods of the language take their arguments
// from. Included after the strings.

pub enum IntegerBase {
    Fixnum(i64),
    BigInt(num::BigInt),
}

pub type BytecodePtr = ();

/// What a method is called with.
pub struct Frame {
    recv: Value,
    args: Vec<Option<Value>>,
}

#[derive(Clone, Copy)]
pub struct Lfp(*const Frame);

impl Lfp {
    fn frame(&self) -> &'static Frame {
        unsafe { &*self.0 }
    }
    pub fn self_val(&self) -> Value {
        self.frame().recv
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.frame().args.get(i).copied().flatten()
    }
    pub fn arg(&self, i: usize) -> Value {
        self.try_arg(i).unwrap()
    }
    pub fn block(&self) -> Option<BlockHandler> {
        None
    }
}

pub type Method = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;

/// Calls a method; a missing argument is an optional one left out.
pub fn call_opt(f: Method, recv: Value, args: Vec<Option<Value>>) -> Result<Value> {
    let frame = Frame { recv, args };
    f(&mut Executor, &mut Globals::new_test(), Lfp(&frame), ())
}

pub fn call(f: Method, recv: Value, args: &[Value]) -> Result<Value> {
    call_opt(f, recv, args.iter().map(|v| Some(*v)).collect())
}

/// Calls a method that takes any number of arguments.
pub fn call_rest(f: Method, recv: Value, args: &[Value]) -> Result<Value> {
    call(f, recv, &[Value::array_from_vec(args.to_vec())])
}

#[derive(Clone, Copy)]
pub struct Array(Value);

impl std::ops::Deref for Array {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        match self.0.unpack() {
            RV::Array(a) => a,
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Copy)]
pub struct Hashmap(Value);

impl Hashmap {
    fn pairs(&self) -> &'static [(Value, Value)] {
        match self.0.unpack() {
            RV::Hash(h) => h,
            _ => unreachable!(),
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> {
        self.pairs().iter().copied()
    }
    pub fn get(&self, key: Value, _: &mut Executor, _: &mut Globals) -> Result<Option<Value>> {
        let name = |v: &Value| match v.unpack() {
            RV::Symbol(s) => s.to_string(),
            _ => unreachable!(),
        };
        Ok(self.pairs().iter().find(|(k, _)| name(k) == name(&key)).map(|(_, v)| *v))
    }
    pub fn index(&self, vm: &mut Executor, globals: &mut Globals, key: Value) -> Result<Value> {
        Ok(self.get(key, vm, globals)?.unwrap_or(Value::nil()))
    }
}
impl From<Hashmap> for Value {
    fn from(h: Hashmap) -> Value {
        h.0
    }
}

impl Globals {
    pub fn rs(&self) -> Value {
        Value::string("\n")
    }
}

impl Value {
    pub fn try_hash_ty(&self) -> Option<Hashmap> {
        matches!(self.unpack(), RV::Hash(_)).then_some(Hashmap(*self))
    }
    pub fn try_array_ty(&self) -> Option<Array> {
        matches!(self.unpack(), RV::Array(_)).then_some(Array(*self))
    }
    pub fn as_array(&self) -> Array {
        self.try_array_ty().unwrap()
    }
    pub fn is_rstring(&self) -> Option<RString> {
        self.is_rstring_inner().map(|_| RString::new_unchecked(*self))
    }
    pub fn expect_str(&self, _: &Store) -> Result<&'static str> {
        match self.is_rstring_inner() {
            Some(s) => s.check_utf8(),
            None => Err(MonorubyErr::Type("no implicit conversion into String".into())),
        }
    }
    pub fn string_from_str_with_encoding_of(s: &str, template: Value) -> Value {
        Value::string_from_bytes_with_encoding_of(s.as_bytes(), template)
    }
    pub fn string_from_bytes_with_encoding_of(s: &[u8], template: Value) -> Value {
        let enc = template.is_rstring_inner().map_or(Encoding::Utf8, |r| r.encoding());
        Value::string_from_inner(RStringInner::from_encoding_scanned(s, enc))
    }
    pub fn ensure_string_mutable(&mut self, _: &mut Executor, globals: &mut Globals) -> Result<()> {
        self.ensure_not_frozen(&globals.store)
    }
    pub fn replace_with_inner(&mut self, inner: RStringInner) {
        *self.as_rstring_inner_mut() = inner;
    }
    pub fn replace_string(&mut self, s: String) {
        self.replace_with_inner(RStringInner::from_string(s));
    }
    pub fn replace_str(&mut self, s: &str) {
        self.replace_with_inner(RStringInner::from_str(s));
    }
    pub fn dup(&self) -> Value {
        match self.is_rstring_inner() {
            Some(s) => Value::string_from_inner(s.clone()),
            None => *self,
        }
    }
}

/// No pattern is ever among the arguments.
#[derive(Clone, Copy)]
pub enum Regexp {}
pub type RegexpInner = Regexp;
pub struct Captured(std::convert::Infallible);

impl Regexp {
    pub fn as_str(&self) -> &'static str {
        match *self {}
    }
    pub fn captures_from_pos(&self, _: &str, _: usize, _: &mut Executor) -> Result<Option<Captured>> {
        match *self {}
    }
    pub fn captures(&self, _: &str, _: &mut Executor) -> Result<Option<Captured>> {
        match *self {}
    }
}
impl Captured {
    pub fn len(&self) -> usize {
        match self.0 {}
    }
    pub fn pos(&self, _: usize) -> Option<(usize, usize)> {
        match self.0 {}
    }
    pub fn get(&self, _: usize) -> Option<std::ops::Range<usize>> {
        match self.0 {}
    }
}
pub trait Match {
    fn start(&self) -> usize;
    fn end(&self) -> usize;
    fn range(&self) -> std::ops::Range<usize>;
}
impl Match for std::ops::Range<usize> {
    fn start(&self) -> usize {
        self.start
    }
    fn end(&self) -> usize {
        self.end
    }
    fn range(&self) -> std::ops::Range<usize> {
        self.clone()
    }
}
impl Value {
    pub fn is_regex(&self) -> Option<Regexp> {
        None
    }
}
impl Executor {
    pub fn clear_capture_special_variables(&mut self) {}
    pub fn set_match_haystack(&mut self, _: Value) {}
    pub fn temp_push(&mut self, _: Value) {}
    pub fn temp_pop(&mut self) {}
    pub fn warn_deprecated(&mut self, _: &mut Globals, _: &str) -> Result<()> {
        Ok(())
    }
}

impl MonorubyErr {
    pub fn zero_width_padding() -> MonorubyErr {
        MonorubyErr::Argument("zero width padding".into())
    }
}

impl MonorubyErr {
    pub fn negative_argument() -> MonorubyErr {
        MonorubyErr::Argument("argument must be non-negative".into())
    }
}
impl IdentId {
    pub const _CMP: IdentId = IdentId(7);
    pub const _EQ: IdentId = IdentId(8);
}
/// The name of a symbol.
#[derive(Clone, Copy)]
pub struct Name(&'static str);

impl Name {
    pub fn get_name(&self) -> String {
        self.0.to_string()
    }
}
impl Value {
    pub fn from_ord(o: std::cmp::Ordering) -> Value {
        Value::integer(o as i64)
    }
    pub fn ord_from(v: Value) -> Option<std::cmp::Ordering> {
        v.try_fixnum().map(|i| i.cmp(&0))
    }
    pub fn try_symbol(&self) -> Option<Name> {
        match self.unpack() {
            RV::Symbol(s) => Some(Name(s)),
            _ => None,
        }
    }
    pub fn array_from_iter(i: impl Iterator<Item = Value>) -> Value {
        Value::array_from_vec(i.collect())
    }
}
impl Executor {
    /// No block is ever given.
    pub fn invoke_block_map1(&mut self, _: &mut Globals, _: BlockHandler, _: impl Iterator<Item = Value>, _: Option<usize>) -> Result<Value> {
        unreachable!()
    }
}
impl Default for Value {
    fn default() -> Value {
        Value::nil()
    }
}

impl Globals {
    pub fn fs(&self) -> Value {
        Value::nil()
    }
}
impl Executor {
    pub fn invoke_block_iter1(&mut self, _: &mut Globals, _: BlockHandler, _: impl Iterator<Item = Value>) -> Result<()> {
        unreachable!()
    }
    pub fn invoke_block_iter1_rooted(&mut self, _: &mut Globals, _: BlockHandler, _: Vec<Value>) -> Result<()> {
        unreachable!()
    }
}
impl Value {
    /// Only strings are searched for.
    pub fn coerce_to_regexp_or_string(&self, _: &mut Executor, _: &mut Globals) -> Result<Regexp> {
        unreachable!()
    }
}
impl MonorubyErr {
    pub fn converter_not_found_error(_: &Store, msg: String) -> MonorubyErr {
        MonorubyErr::Argument(msg)
    }
}

/// A range, as a value and as what the interpreter sees of it. No hash is ever among the arguments
/// where a range may be.
pub struct RangeInner(Value, Value, bool);

impl RangeInner {
    pub fn start(&self) -> Value {
        self.0
    }
    pub fn end(&self) -> Value {
        self.1
    }
    pub fn exclude_end(&self) -> bool {
        self.2
    }
}
impl Value {
    pub fn range(start: Value, end: Value, exclude_end: bool) -> Value {
        Value::new(Kind::Hash(vec![(start, end), (Value::bool(exclude_end), Value::nil())]), None)
    }
    pub fn is_range(&self) -> Option<RangeInner> {
        match self.unpack() {
            RV::Hash(h) if h.len() == 2 => Some(RangeInner(h[0].0, h[0].1, h[1].0.as_bool())),
            _ => None,
        }
    }
}
pub const STRING_CLASS: ClassId = ClassId(3);
impl Value {
    pub fn expect_string(&self, store: &Store) -> Result<String> {
        Ok(self.expect_str(store)?.to_string())
    }
}
