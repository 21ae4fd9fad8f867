// What Marshal works on: values with identity, classes, instance variables, and a collector.

use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
pub use monoruby_attr::monoruby_builtin;
pub use num::BigInt;

pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub type BytecodePtr = ();

#[derive(Clone, Debug)]
pub enum MonorubyErrKind {
    MethodReturn(Value, Lfp),
    Other,
}
#[derive(Debug, Clone)]
pub struct MonorubyErr(pub String);
impl MonorubyErr {
    pub fn kind(&self) -> &MonorubyErrKind {
        &MonorubyErrKind::Other
    }
    pub fn argumenterr(m: impl ToString) -> Self {
        MonorubyErr(m.to_string())
    }
    pub fn typeerr(m: impl ToString) -> Self {
        MonorubyErr(m.to_string())
    }
    pub fn rangeerr(m: impl ToString) -> Self {
        MonorubyErr(m.to_string())
    }
    pub fn runtimeerr(m: impl ToString) -> Self {
        MonorubyErr(m.to_string())
    }
}

// ---- names --------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Encoding {
    Ascii8,
    Utf8,
    UsAscii,
    EucJp,
    Utf16Le,
}
impl Encoding {
    pub fn name(&self) -> &'static str {
        match self {
            Encoding::Ascii8 => "ASCII-8BIT",
            Encoding::Utf8 => "UTF-8",
            Encoding::UsAscii => "US-ASCII",
            Encoding::EucJp => "EUC-JP",
            Encoding::Utf16Le => "UTF-16LE",
        }
    }
    pub fn try_from_str(s: &str) -> Result<Encoding> {
        [Encoding::Ascii8, Encoding::Utf8, Encoding::UsAscii, Encoding::EucJp, Encoding::Utf16Le]
            .into_iter()
            .find(|e| e.name().eq_ignore_ascii_case(s))
            .ok_or_else(|| MonorubyErr::argumenterr("unknown encoding"))
    }
    pub fn is_utf8_compatible(&self) -> bool {
        matches!(self, Encoding::Utf8 | Encoding::UsAscii)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct IdentId(pub u32);
thread_local! {
    static NAMES: RefCell<(Vec<(Vec<u8>, Encoding)>, HashMap<(Vec<u8>, Encoding), u32>)> = RefCell::default();
}
#[derive(Clone, PartialEq, Debug)]
pub struct IdentName(pub Vec<u8>);
impl IdentName {
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
impl IdentId {
    pub fn get_id_from_bytes(b: Vec<u8>, e: Encoding) -> IdentId {
        NAMES.with(|n| {
            let n = &mut *n.borrow_mut();
            IdentId(*n.1.entry((b.clone(), e)).or_insert_with(|| {
                n.0.push((b, e));
                n.0.len() as u32 - 1
            }))
        })
    }
    pub fn get_id(s: &str) -> IdentId {
        IdentId::get_id_from_bytes(s.as_bytes().to_vec(), if s.is_ascii() { Encoding::UsAscii } else { Encoding::Utf8 })
    }
    pub fn get_ident_name_clone(&self) -> IdentName {
        NAMES.with(|n| IdentName(n.borrow().0[self.0 as usize].0.clone()))
    }
    pub fn get_name(&self) -> String {
        String::from_utf8_lossy(&self.get_ident_name_clone().0).into_owned()
    }
    pub fn symbol_encoding(&self) -> Option<Encoding> {
        NAMES.with(|n| Some(n.borrow().0[self.0 as usize].1))
    }
}

// ---- classes ------------------------------------------------------------------------------------

/// A class by its number, or the own class of an object by where the object is.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct ClassId(pub u64);
pub const OBJECT_CLASS: ClassId = ClassId(0);
pub const STRING_CLASS: ClassId = ClassId(1);
pub const ARRAY_CLASS: ClassId = ClassId(2);
pub const HASH_CLASS: ClassId = ClassId(3);
pub const RANGE_CLASS: ClassId = ClassId(4);
pub const EXCEPTION_CLASS: ClassId = ClassId(5);
pub const REGEXP_CLASS: ClassId = ClassId(6);
pub const STRUCT_CLASS: ClassId = ClassId(7);
pub const INTEGER_CLASS: ClassId = ClassId(8);
pub const FOO: ClassId = ClassId(9);
pub const STR2: ClassId = ClassId(10);
pub const ARY2: ClassId = ClassId(11);
pub const HSH2: ClassId = ClassId(12);
pub const MIX: ClassId = ClassId(13);
pub const PAIR: ClassId = ClassId(14);
pub const KEEPER: ClassId = ClassId(15);
pub const TELLER: ClassId = ClassId(16);
pub const RATIONAL: ClassId = ClassId(17);
pub const OOPS: ClassId = ClassId(18);
pub const MORE: ClassId = ClassId(19);
pub const FLOAT: ClassId = ClassId(20);
pub const ELAN: ClassId = ClassId(21);
/// Name and superclass.
const CLASSES: &[(&str, u64)] = &[
    ("Object", 0),
    ("String", 0),
    ("Array", 0),
    ("Hash", 0),
    ("Range", 0),
    ("Exception", 0),
    ("Regexp", 0),
    ("Struct", 0),
    ("Integer", 0),
    ("Foo", 0),
    ("Str2", 1),
    ("Ary2", 2),
    ("Hsh2", 3),
    ("Mix", 0),
    ("Pair", 7),
    ("Keeper", 0),
    ("Teller", 0),
    ("Rational", 0),
    ("Oops", 5),
    ("More", 0),
    ("Float", 0),
    ("Élan", 0),
];
const OWN: u64 = 1000;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Module {
    Plain(ClassId),
    /// The own class of an object.
    Own(Value),
    /// The place of a module it was extended with.
    Place(Value, usize),
}
impl Module {
    pub fn id(&self) -> ClassId {
        match self {
            Module::Plain(c) => *c,
            Module::Own(v) => ClassId(v.0),
            Module::Place(v, i) => v.o().mixed[*i],
        }
    }
    pub fn as_val(&self) -> Value {
        if let Module::Own(_) = self {
            return Value::nil();
        }
        CLASS_VALUES.with(|c| c.borrow()[self.id().0 as usize])
    }
    pub fn superclass(&self) -> Option<Module> {
        match self {
            Module::Plain(c) if c.0 == 0 => None,
            Module::Plain(c) => Some(Module::Plain(ClassId(CLASSES[c.0 as usize].1))),
            Module::Own(v) | Module::Place(v, _) => {
                let next = if let Module::Place(_, i) = self { i + 1 } else { 0 };
                Some(if next < v.o().mixed.len() { Module::Place(*v, next) } else { Module::Plain(v.o().class) })
            }
        }
    }
    pub fn is_singleton(&self) -> Option<Value> {
        if let Module::Own(v) = self { Some(*v) } else { None }
    }
    pub fn is_iclass(&self) -> bool {
        matches!(self, Module::Place(..))
    }
}
pub struct ClassInfo(ClassId);
pub type Alloc = fn();
pub fn default_alloc_func() {}
fn own_alloc_func() {
    panic!()
}
impl ClassInfo {
    pub fn get_module(&self) -> Module {
        if self.0.0 < OWN { Module::Plain(self.0) } else { Module::Own(Value(self.0.0)) }
    }
    pub fn alloc_func(&self) -> Option<Alloc> {
        let mut c = self.0.0;
        while c != 0 {
            if c < 9 || c == RATIONAL.0 {
                return Some(own_alloc_func);
            }
            c = CLASSES[c as usize].1;
        }
        Some(default_alloc_func)
    }
}
#[derive(Default)]
pub struct Store;
thread_local! {
    static INFOS: RefCell<HashMap<u64, Box<ClassInfo>>> = RefCell::default();
    static CLASS_VALUES: RefCell<Vec<Value>> = RefCell::default();
    static HEAP: RefCell<Vec<*mut Obj>> = RefCell::default();
    /// Whether a value was used after it had been collected.
    static GONE: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    /// Places of collected objects that may be given out again.
    static SPARE: RefCell<Vec<*mut Obj>> = RefCell::default();
    static FLOATS: RefCell<HashMap<u64, Value>> = RefCell::default();
}
impl std::ops::Index<ClassId> for Store {
    type Output = ClassInfo;
    fn index(&self, c: ClassId) -> &ClassInfo {
        INFOS.with(|i| {
            let p: *const ClassInfo = &**i.borrow_mut().entry(c.0).or_insert_with(|| Box::new(ClassInfo(c)));
            unsafe { &*p }
        })
    }
}
impl Store {
    pub fn get_ivar(&self, v: Value, name: IdentId) -> Option<Value> {
        v.o().ivars.iter().find(|i| i.0 == name).map(|i| i.1)
    }
    pub fn has_singleton(&self, v: Value) -> Option<Module> {
        let m = self[v.class()].get_module();
        m.is_singleton().map(|_| m)
    }
    pub fn get_method_names(&self, _: ClassId) -> Vec<IdentId> {
        vec![]
    }
}

// ---- values -------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Value(pub u64);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ObjTy(pub u8);
impl ObjTy {
    pub const OBJECT: ObjTy = ObjTy(0);
    pub const ARRAY: ObjTy = ObjTy(1);
    pub const HASH: ObjTy = ObjTy(2);
    pub const CLASS: ObjTy = ObjTy(3);
    pub const MODULE: ObjTy = ObjTy(4);
    pub const RANGE: ObjTy = ObjTy(5);
    pub const STRUCT: ObjTy = ObjTy(6);
    pub const REGEXP: ObjTy = ObjTy(7);
    pub const EXCEPTION: ObjTy = ObjTy(8);
    pub const TIME: ObjTy = ObjTy(9);
    pub const STRING: ObjTy = ObjTy(10);
    pub const OTHER: ObjTy = ObjTy(11);
}

#[derive(Clone, PartialEq, Debug)]
pub struct RStringInner(pub Vec<u8>, pub Encoding);
impl RStringInner {
    pub fn from_encoding(b: &[u8], e: Encoding) -> Self {
        RStringInner(b.to_vec(), e)
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn encoding(&self) -> Encoding {
        self.1
    }
    pub fn set_encoding(&mut self, e: Encoding) {
        self.1 = e;
    }
}
#[derive(Default, Clone)]
pub struct RubyMap {
    pub pairs: Vec<(Value, Value)>,
    pub default: Option<Value>,
    pub by_identity: bool,
}
impl RubyMap {
    pub fn iter(&self) -> impl Iterator<Item = (Value, Value)> + '_ {
        self.pairs.iter().copied()
    }
    pub fn default_value(&self) -> Option<Value> {
        self.default
    }
    pub fn is_compare_by_identity(&self) -> bool {
        self.by_identity
    }
}
#[derive(Clone, PartialEq, Debug)]
pub struct RegexpInner(pub Vec<u8>, pub u32);
impl RegexpInner {
    pub fn with_option_kcode(s: String, o: u32, _: onigmo_regex::OnigmoEncoding, _: Option<()>, _: Option<()>) -> Result<Self> {
        if s.contains('*') { Err(MonorubyErr::argumenterr("no pattern")) } else { Ok(RegexpInner(s.into_bytes(), o)) }
    }
    pub fn source_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn option(&self) -> u32 {
        self.1
    }
    pub fn declared_encoding(&self) -> Encoding {
        if self.0.is_ascii() { Encoding::UsAscii } else { Encoding::Utf8 }
    }
}
pub mod onigmo_regex {
    pub enum OnigmoEncoding {
        UTF8,
    }
}
pub struct RangeInner(Value, Value, bool);
impl RangeInner {
    pub fn start(&self) -> Value {
        self.0
    }
    pub fn end(&self) -> Value {
        self.1
    }
    pub fn exclude_end(&self) -> bool {
        self.2
    }
}
pub struct Slots(Vec<Value>);
impl Slots {
    pub fn try_get(&self, i: usize) -> Option<Value> {
        self.0.get(i).copied()
    }
}
pub struct ExceptionInner(String);
impl ExceptionInner {
    pub fn message(&self) -> &str {
        &self.0
    }
}
pub struct TimeInner;

pub enum Kind {
    Big(BigInt),
    Float(f64),
    Str(RStringInner),
    Arr(Vec<Value>),
    Hash(RubyMap),
    Range(RangeInner),
    Regexp(RegexpInner),
    Struct(Slots),
    Exception(ExceptionInner, Value),
    Class(ClassId),
    Rational(Value, Value),
    Plain,
    Proc,
}
pub struct Obj {
    pub class: ClassId,
    pub kind: Kind,
    pub ivars: Vec<(IdentId, Value)>,
    pub mixed: Vec<ClassId>,
    pub frozen: bool,
    pub dead: bool,
}
pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    Symbol(IdentId),
    String(&'a RStringInner),
    Complex(()),
    Rational(()),
    Object(()),
    Invalid,
}

const NIL: u64 = 0x8;
const TRUE: u64 = 0x18;
const FALSE: u64 = 0x28;

impl Value {
    pub fn new(class: ClassId, kind: Kind) -> Value {
        let o = Obj { class, kind, ivars: vec![], mixed: vec![], frozen: false, dead: false };
        if let Some(p) = SPARE.with(|s| s.borrow_mut().pop()) {
            unsafe { *p = o };
            return Value(p as u64);
        }
        let p = Box::into_raw(Box::new(o));
        HEAP.with(|h| h.borrow_mut().push(p));
        Value(p as u64)
    }
    pub fn heap(&self) -> bool {
        self.0 > 0x1000 && self.0 & 7 == 0
    }
    pub fn o(&self) -> &'static mut Obj {
        assert!(self.heap(), "not an object: {:x}", self.0);
        let o = unsafe { &mut *(self.0 as *mut Obj) };
        if o.dead {
            GONE.with(|g| g.set(true));
        }
        o
    }
    pub fn id(&self) -> u64 {
        self.0
    }
    pub fn nil() -> Value {
        Value(NIL)
    }
    pub fn is_nil(&self) -> bool {
        self.0 == NIL
    }
    pub fn bool(b: bool) -> Value {
        Value(if b { TRUE } else { FALSE })
    }
    pub fn as_bool(&self) -> bool {
        self.0 != NIL && self.0 != FALSE
    }
    pub fn integer(i: i64) -> Value {
        if (-(1 << 62)..1 << 62).contains(&i) { Value((i as u64) << 1 | 1) } else { Value::new(INTEGER_CLASS, Kind::Big(i.into())) }
    }
    pub fn bigint(b: BigInt) -> Value {
        use num::ToPrimitive;
        match b.to_i64() {
            Some(i) => Value::integer(i),
            None => Value::new(INTEGER_CLASS, Kind::Big(b)),
        }
    }
    /// A float is the same object as any other of the same bits.
    pub fn float(f: f64) -> Value {
        FLOATS.with(|t| *t.borrow_mut().entry(f.to_bits()).or_insert_with(|| Value::new(FLOAT, Kind::Float(f))))
    }
    pub fn symbol(i: IdentId) -> Value {
        Value((i.0 as u64) << 8 | 0xc)
    }
    pub fn try_symbol(&self) -> Option<IdentId> {
        (self.0 & 0xff == 0xc).then(|| IdentId((self.0 >> 8) as u32))
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        (self.0 & 1 == 1).then(|| self.0 as i64 >> 1)
    }
    pub fn is_packed_value(&self) -> bool {
        !self.heap() || matches!(self.o().kind, Kind::Float(_))
    }
    pub fn string_from_inner(s: RStringInner) -> Value {
        Value::new(STRING_CLASS, Kind::Str(s))
    }
    pub fn string_from_str(s: &str) -> Value {
        Value::string_from_inner(RStringInner(s.as_bytes().to_vec(), Encoding::Utf8))
    }
    pub fn bytes(b: Vec<u8>) -> Value {
        Value::string_from_inner(RStringInner(b, Encoding::Ascii8))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        Value::new(ARRAY_CLASS, Kind::Arr(v))
    }
    pub fn array_empty() -> Value {
        Value::array_from_vec(vec![])
    }
    pub fn hash(m: RubyMap) -> Value {
        Value::new(HASH_CLASS, Kind::Hash(m))
    }
    pub fn range(a: Value, b: Value, x: bool) -> Value {
        Value::new(RANGE_CLASS, Kind::Range(RangeInner(a, b, x)))
    }
    pub fn regexp(r: RegexpInner) -> Value {
        Value::new(REGEXP_CLASS, Kind::Regexp(r))
    }
    pub fn object(c: ClassId) -> Value {
        Value::new(c, Kind::Plain)
    }
    pub fn struct_object(c: ClassId, n: usize) -> Value {
        Value::new(c, Kind::Struct(Slots(vec![Value::nil(); n])))
    }
    pub fn set_struct_slot(&mut self, i: usize, v: Value) {
        match &mut self.o().kind {
            Kind::Struct(s) => s.0[i] = v,
            _ => panic!("no struct"),
        }
    }
    pub fn new_exception_from_with_class(msg: String, c: ClassId, _: ClassId) -> Value {
        Value::new(c, Kind::Exception(ExceptionInner(msg), Value::nil()))
    }
    pub fn class(&self) -> ClassId {
        if self.heap() {
            if self.o().mixed.is_empty() { self.o().class } else { ClassId(self.0) }
        } else {
            OBJECT_CLASS
        }
    }
    pub fn real_class(&self, _: &Store) -> Module {
        Module::Plain(self.o().class)
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        CLASSES[self.o().class.0 as usize].0.to_string()
    }
    pub fn change_class(&mut self, c: ClassId) {
        self.o().class = c;
    }
    pub fn set_frozen(&mut self) {
        self.o().frozen = true;
    }
    pub fn is_kind_of(&self, _: &Store, c: ClassId) -> bool {
        assert_eq!(c, INTEGER_CLASS);
        self.try_fixnum().is_some()
    }
    pub fn is_class_or_module(&self) -> Option<Module> {
        if !self.heap() {
            return None;
        }
        if let Kind::Class(c) = self.o().kind { Some(Module::Plain(c)) } else { None }
    }
    pub fn as_class_id(&self) -> ClassId {
        self.is_class_or_module().unwrap().id()
    }
    pub fn is_proc(&self) -> Option<Proc> {
        (self.heap() && matches!(self.o().kind, Kind::Proc)).then_some(Proc)
    }
    pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
        if !self.heap() {
            return None;
        }
        if let Kind::Str(s) = &self.o().kind { Some(s) } else { None }
    }
    pub fn as_rstring_inner_mut(&mut self) -> &'static mut RStringInner {
        if let Kind::Str(s) = &mut self.o().kind { s } else { panic!("no string") }
    }
    pub fn expect_bytes(&self, _: &Store) -> Result<&'static [u8]> {
        self.is_rstring_inner().map(|s| s.as_bytes()).ok_or_else(|| MonorubyErr::typeerr("no string"))
    }
    pub fn try_array_ty(&self) -> Option<Array> {
        (self.heap() && matches!(self.o().kind, Kind::Arr(_))).then_some(Array(*self))
    }
    pub fn as_array(&self) -> Array {
        self.try_array_ty().unwrap()
    }
    pub fn as_array_inner(&self) -> Array {
        self.as_array()
    }
    pub fn as_hash(&self) -> Hashmap {
        self.as_hashmap_inner();
        Hashmap(*self)
    }
    pub fn as_hashmap_inner(&self) -> &'static mut RubyMap {
        if let Kind::Hash(h) = &mut self.o().kind { h } else { panic!("no hash") }
    }
    pub fn as_range(&self) -> &'static RangeInner {
        if let Kind::Range(r) = &self.o().kind { r } else { panic!("no range") }
    }
    pub fn as_regexp_inner(&self) -> &'static RegexpInner {
        if let Kind::Regexp(r) = &self.o().kind { r } else { panic!("no regexp") }
    }
    pub fn as_struct(&self) -> &'static Slots {
        if let Kind::Struct(r) = &self.o().kind { r } else { panic!("no struct") }
    }
    pub fn is_exception(&self) -> Option<&'static ExceptionInner> {
        if let Kind::Exception(r, _) = &self.o().kind { Some(r) } else { None }
    }
    pub fn as_time(&self) -> &'static TimeInner {
        panic!("no time")
    }
    pub fn ty(&self) -> Option<ObjTy> {
        if !self.heap() {
            return None;
        }
        Some(match &self.o().kind {
            Kind::Arr(_) => ObjTy::ARRAY,
            Kind::Hash(_) => ObjTy::HASH,
            Kind::Class(c) if *c == MIX || *c == MORE => ObjTy::MODULE,
            Kind::Class(_) => ObjTy::CLASS,
            Kind::Range(_) => ObjTy::RANGE,
            Kind::Struct(_) => ObjTy::STRUCT,
            Kind::Regexp(_) => ObjTy::REGEXP,
            Kind::Exception(..) => ObjTy::EXCEPTION,
            Kind::Str(_) => ObjTy::STRING,
            Kind::Plain => ObjTy::OBJECT,
            _ => ObjTy::OTHER,
        })
    }
    pub fn unpack(&self) -> RV<'static> {
        if let Some(i) = self.try_fixnum() {
            return RV::Fixnum(i);
        }
        if let Some(i) = self.try_symbol() {
            return RV::Symbol(i);
        }
        match self.0 {
            NIL => RV::Nil,
            TRUE => RV::Bool(true),
            FALSE => RV::Bool(false),
            _ => match &self.o().kind {
                Kind::Big(b) => RV::BigInt(b),
                Kind::Float(f) => RV::Float(*f),
                Kind::Str(s) => RV::String(s),
                Kind::Rational(..) => RV::Rational(()),
                _ => RV::Object(()),
            },
        }
    }
}

#[derive(Clone, Copy)]
pub struct Array(Value);
impl Array {
    pub fn new_empty() -> Array {
        Array(Value::array_empty())
    }
    pub fn push(&mut self, v: Value) {
        self.vec().push(v);
    }
    pub fn vec(&self) -> &'static mut Vec<Value> {
        if let Kind::Arr(v) = &mut self.0.o().kind { v } else { unreachable!() }
    }
}
impl std::ops::Deref for Array {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        self.vec()
    }
}
impl std::ops::DerefMut for Array {
    fn deref_mut(&mut self) -> &mut [Value] {
        self.vec()
    }
}
impl From<Array> for Value {
    fn from(a: Array) -> Value {
        a.0
    }
}
/// Whether two keys are the same to a hash. Collections are told apart by identity.
pub fn eql(a: Value, b: Value) -> bool {
    if a == b {
        return true;
    }
    if !a.heap() || !b.heap() {
        return false;
    }
    match (&a.o().kind, &b.o().kind) {
        (Kind::Big(a), Kind::Big(b)) => a == b,
        (Kind::Str(a), Kind::Str(b)) => a.0 == b.0 && (a.1 == b.1 || a.0.is_ascii()),
        _ => false,
    }
}
#[derive(Clone, Copy)]
pub struct Hashmap(Value);
impl Hashmap {
    pub fn insert(&mut self, k: Value, v: Value, _: &mut Executor, _: &mut Globals) -> Result<()> {
        if k.heap() {
            k.o();
        }
        let m = self.0.as_hashmap_inner();
        let same = |a: Value| if m.by_identity { a == k } else { eql(a, k) };
        match m.pairs.iter().position(|p| same(p.0)) {
            Some(i) => m.pairs[i].1 = v,
            None => m.pairs.push((k, v)),
        }
        Ok(())
    }
    pub fn set_defalut_value(&mut self, v: Value, _: &mut Executor, _: &mut Globals) -> Result<()> {
        self.0.as_hashmap_inner().default = Some(v);
        Ok(())
    }
    pub fn compare_by_identity(&mut self, _: &mut Executor, _: &mut Globals) -> Result<()> {
        self.0.as_hashmap_inner().by_identity = true;
        Ok(())
    }
}

#[derive(Clone, Copy)]
pub struct Proc;

fn parts(v: Value, out: &mut Vec<Value>) {
    let o = v.o();
    out.extend(o.ivars.iter().map(|i| i.1));
    match &o.kind {
        Kind::Arr(a) => out.extend(a),
        Kind::Hash(h) => {
            out.extend(h.pairs.iter().flat_map(|p| [p.0, p.1]));
            out.extend(h.default);
        }
        Kind::Range(r) => out.extend([r.0, r.1]),
        Kind::Struct(s) => out.extend(&s.0),
        Kind::Exception(_, b) => out.push(*b),
        Kind::Rational(a, b) => out.extend([*a, *b]),
        _ => {}
    }
}
/// Whatever the roots do not lead to is gone.
pub fn collect(roots: &[Value], again: bool) {
    let mut todo = roots.to_vec();
    CLASS_VALUES.with(|c| todo.extend(c.borrow().iter()));
    FLOATS.with(|c| todo.extend(c.borrow().values()));
    let mut seen = HashSet::new();
    while let Some(v) = todo.pop() {
        if v.heap() && seen.insert(v.0) {
            parts(v, &mut todo);
        }
    }
    HEAP.with(|h| {
        for p in h.borrow().iter() {
            if !seen.contains(&(*p as u64)) && !unsafe { (**p).dead } {
                unsafe { (**p).dead = true };
                if again {
                    SPARE.with(|s| s.borrow_mut().push(*p));
                }
            }
        }
    });
}
pub fn free_all() {
    FLOATS.with(|f| f.borrow_mut().clear());
    INFOS.with(|f| f.borrow_mut().clear());
    SPARE.with(|f| f.borrow_mut().clear());
    GONE.with(|g| g.set(false));
    HEAP.with(|h| {
        for p in h.borrow_mut().drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    });
    NAMES.with(|n| *n.borrow_mut() = Default::default());
    CLASS_VALUES.with(|c| c.borrow_mut().clear());
    let all: Vec<Value> = (0..CLASSES.len()).map(|i| Value::new(OBJECT_CLASS, Kind::Class(ClassId(i as u64)))).collect();
    let members = [Value::symbol(IdentId::get_id("a")), Value::symbol(IdentId::get_id("b"))];
    all[PAIR.0 as usize].o().ivars.push((IdentId::get_id("/members"), Value::array_from_vec(members.to_vec())));
    CLASS_VALUES.with(|c| *c.borrow_mut() = all);
}

// ---- the rest of the interpreter ----------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Lfp(*const [Option<Value>; 3]);
impl Lfp {
    pub fn arg(&self, i: usize) -> Value {
        self.try_arg(i).unwrap()
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        let args = unsafe { &*self.0 };
        args[i]
    }
    pub fn func_id(&self) {}
}
pub type Method = extern "C" fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Option<Value>;
pub struct Globals {
    pub store: Store,
    pub main_object: Value,
    methods: HashMap<String, Method>,
}
pub struct ConstState(Value);
impl ConstState {
    pub fn loaded_value(&self) -> Option<Value> {
        Some(self.0)
    }
}
impl Globals {
    pub fn define_toplevel_module(&mut self, _: &str) -> Module {
        Module::Plain(OBJECT_CLASS)
    }
    pub fn define_builtin_module_func_with(&mut self, _: ClassId, name: &str, f: Method, _: usize, _: usize, _: bool) {
        self.methods.insert(name.to_string(), f);
    }
    pub fn define_builtin_module_func_with_kw(&mut self, _: ClassId, name: &str, f: Method, _: usize, _: usize, _: bool, _: &[&str], _: bool) -> Method {
        self.methods.insert(name.to_string(), f);
        f
    }
    pub fn define_builtin_module_func_alias(&mut self, _: ClassId, name: &str, f: Method) {
        self.methods.insert(name.to_string(), f);
    }
    pub fn set_ivar(&mut self, v: Value, name: IdentId, val: Value) -> Result<()> {
        if !v.heap() || v.o().frozen {
            return Err(MonorubyErr::runtimeerr("can't modify frozen"));
        }
        let o = v.o();
        match o.ivars.iter_mut().find(|i| i.0 == name) {
            Some(i) => i.1 = val,
            None => o.ivars.push((name, val)),
        }
        Ok(())
    }
    pub fn get_ivars(&self, v: Value) -> Vec<(IdentId, Value)> {
        if v.heap() { v.o().ivars.clone() } else { vec![] }
    }
    pub fn get_constant(&self, under: ClassId, name: IdentId) -> Option<ConstState> {
        if under != OBJECT_CLASS {
            return None;
        }
        let i = CLASSES.iter().position(|c| c.0 == name.get_name())?;
        Some(ConstState(Module::Plain(ClassId(i as u64)).as_val()))
    }
    pub fn get_class_name(&self, c: ClassId) -> String {
        CLASSES[c.0 as usize].0.to_string()
    }
    pub fn check_method(&self, v: Value, name: IdentId) -> Option<()> {
        let c = v.o().class;
        let name = name.get_name();
        let has = (c == KEEPER || c == RATIONAL) && name == "marshal_dump" || c == TELLER && name == "_dump";
        has.then_some(())
    }
    pub fn check_method_for_class(&self, _: ClassId, _: IdentId) -> Option<()> {
        None
    }
}
#[derive(Default)]
pub struct Executor {
    temp: Vec<Value>,
    error: Option<MonorubyErr>,
    /// What the program holds.
    pub held: Vec<Value>,
    /// What running code collects, how often.
    pub collecting: u64,
    /// What the proc answers with.
    pub replacing: bool,
    /// Whether the places of what was collected are given out again.
    pub again: bool,
    pub calls: u64,
}
impl Executor {
    fn code(&mut self) {
        self.calls += 1;
        if self.collecting >> (self.calls % 64) & 1 == 1 {
            let mut roots = self.temp.clone();
            roots.extend(&self.held);
            collect(&roots, self.again);
        }
    }
    pub fn set_error(&mut self, e: MonorubyErr) {
        self.error = Some(e);
    }
    pub fn invoke_proc(&mut self, _: &mut Globals, _: &Proc, args: &[Value]) -> Result<Value> {
        let n = self.temp.len();
        self.temp.extend(args);
        self.code();
        self.temp.truncate(n);
        let v = args[0];
        // Strings are answered with copies.
        if self.replacing && let Some(s) = v.is_rstring_inner() && v.o().class == STRING_CLASS && v.o().ivars.is_empty() && v.o().mixed.is_empty() {
            return Ok(Value::string_from_inner(s.clone()));
        }
        Ok(v)
    }
    pub fn invoke_method_inner(&mut self, g: &mut Globals, name: IdentId, recv: Value, args: &[Value], _: Option<()>, _: Option<()>) -> Result<Value> {
        let n = self.temp.len();
        self.temp.push(recv);
        self.temp.extend(args);
        self.code();
        self.temp.truncate(n);
        let contents = IdentId::get_id("@contents");
        match name.get_name().as_str() {
            "marshal_dump" => match &recv.o().kind {
                Kind::Rational(a, b) => Ok(Value::array_from_vec(vec![*a, *b])),
                _ => {
                    let c = g.store.get_ivar(recv, contents).unwrap_or(Value::nil());
                    Ok(Value::array_from_vec(vec![c, Value::string_from_str("fresh")]))
                }
            },
            "marshal_load" => {
                if recv.o().class != KEEPER {
                    return Err(MonorubyErr::typeerr("no such method"));
                }
                let a = args[0].try_array_ty().filter(|a| a.len() == 2).ok_or_else(|| MonorubyErr::typeerr("no pair"))?;
                g.set_ivar(recv, contents, a[0])?;
                Ok(Value::nil())
            }
            "_dump" => Ok(g.store.get_ivar(recv, contents).unwrap_or(Value::nil())),
            "_load" => {
                if recv.as_class_id() != TELLER {
                    return Err(MonorubyErr::typeerr("no such method"));
                }
                let v = Value::object(TELLER);
                g.set_ivar(v, contents, args[0])?;
                Ok(v)
            }
            "extend" => {
                if !recv.heap() || recv.is_packed_value() {
                    return Err(MonorubyErr::typeerr("can't define singleton"));
                }
                if args[0].ty() != Some(ObjTy::MODULE) {
                    return Err(MonorubyErr::typeerr("no module"));
                }
                let m = args[0].as_class_id();
                if !recv.o().mixed.contains(&m) {
                    recv.o().mixed.insert(0, m);
                }
                Ok(recv)
            }
            "Rational" => {
                if args.len() != 2 || args.iter().any(|a| a.try_fixnum().is_none()) {
                    return Err(MonorubyErr::typeerr("no numbers"));
                }
                Ok(Value::new(RATIONAL, Kind::Rational(args[0], args[1])))
            }
            "backtrace" => match &recv.o().kind {
                Kind::Exception(_, b) => Ok(*b),
                _ => Err(MonorubyErr::typeerr("no such method")),
            },
            "set_backtrace" => match &mut recv.o().kind {
                Kind::Exception(_, b) => {
                    *b = args[0];
                    Ok(args[0])
                }
                _ => Err(MonorubyErr::typeerr("no such method")),
            },
            _ => Err(MonorubyErr::typeerr("no such method")),
        }
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temp.push(v);
    }
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temp.len();
        let r = f(self);
        self.temp.truncate(n);
        r
    }
}
/// The shortest decimals, as the library the interpreter uses gives them.
pub mod dtoa {
    #[derive(Default)]
    pub struct Buffer(String);
    impl Buffer {
        pub fn new() -> Buffer {
            Buffer::default()
        }
        pub fn format(&mut self, f: f64) -> &str {
            self.0 = format!("{f:?}");
            &self.0
        }
    }
}
pub mod builtins {
    pub use super::*;
    pub mod class {
        use super::*;
        pub fn call_alloc_func(g: &mut Globals, c: ClassId) -> Result<Value> {
            if g.store[c].alloc_func().map(|f| f as *const ()) != Some(default_alloc_func as *const ()) {
                return Err(MonorubyErr::typeerr("allocator undefined"));
            }
            Ok(Value::object(c))
        }
    }
    pub mod time {
        use super::*;
        pub fn time_is_utc(_: &TimeInner) -> bool {
            true
        }
        pub fn time_utc_offset(_: &TimeInner) -> i32 {
            0
        }
        pub fn time_subsec_nanos(_: &TimeInner) -> u32 {
            0
        }
        pub fn time_reinterpret_offset(_: Value, _: i32) {}
        pub fn time_add_nanos(_: Value, _: i64) {}
    }
    pub mod kernel {
        use super::*;
        pub fn push_builtin_trace(_: &mut Executor, _: &Globals, _: &mut MonorubyErr, _: ()) {}
    }
    #[path = "/repo/monoruby/src/builtins/marshal.rs"]
    pub mod marshal;
    pub fn init(g: &mut Globals) {
        marshal::init(g)
    }
}
pub mod value {
    pub use super::*;
    pub mod rvalue {
        pub use super::*;
    }
}

/// Calls a function of Marshal by its name.
pub fn call(vm: &mut Executor, name: &str, args: [Option<Value>; 3]) -> Result<Value> {
    let mut g = Globals { store: Store, main_object: Value::nil(), methods: HashMap::new() };
    builtins::init(&mut g);
    let f = g.methods[name];
    vm.held.extend(args.iter().flatten());
    vm.error = None;
    match f(vm, &mut g, Lfp(&args), ()) {
        Some(v) => Ok(v),
        None => Err(vm.error.take().unwrap_or(MonorubyErr("no error was set".into()))),
    }
}
