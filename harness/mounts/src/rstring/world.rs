// Stand-ins for values, the collector and the interpreter around the Ruby String, which is mounted
// as it is. Included by every program that needs strings.

use monoruby_attr::monoruby_object;
use num::{BigInt, ToPrimitive, Zero};
use pbt::{Cx, Prop, R, Src, Suite, ensure, fail, note, same};
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::mem::{ManuallyDrop, MaybeUninit};
use std::num::NonZeroU64;

pub mod value {
    pub use super::rvalue::string::{Encoding, RStringInner};
    pub use super::*;
    pub mod rvalue {
        pub use crate::rvalue::*;
        pub use crate::*;
    }
}

#[path = "/repo/monoruby/src/value/rvalue"]
pub mod rvalue {
    use super::*;
    pub use super::RVALUE_OFFSET_KIND;
    pub mod string;
    pub use string::*;
}
pub use rvalue::string::{CodeRange, Encoding, RString, RStringInner};

pub mod alloc {
    pub trait GC<T: GCBox> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub trait GCBox {}
    pub struct Allocator<T>(T);
}
impl alloc::GCBox for Obj {}
impl alloc::GC<Obj> for Value {
    fn mark(&self, _: &mut alloc::Allocator<Obj>) {}
}
pub use Obj as RValue;

pub const RVALUE_OFFSET_KIND: usize = 16;
pub const STRING_INLINE_CAP: usize = 32;

pub type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErr {
    Runtime(String),
    Argument(String),
    Range(String),
    Type(String),
    Frozen,
    Encoding,
    Key(String),
    NoMethod,
    FloatDomain(String),
}

impl MonorubyErr {
    pub fn message(&self) -> String {
        format!("{self:?}")
    }
    pub fn runtimeerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Runtime(msg.to_string())
    }
    pub fn argumenterr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Argument(msg.to_string())
    }
    pub fn rangeerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Range(msg.to_string())
    }
    pub fn typeerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Type(msg.to_string())
    }
    pub fn indexerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Range(msg.to_string())
    }
    pub fn cant_modify_frozen(_: &Store, _: Value) -> MonorubyErr {
        MonorubyErr::Frozen
    }
    pub fn incompatible_encoding(_: &Store, _: Encoding, _: Encoding) -> MonorubyErr {
        MonorubyErr::Encoding
    }
    pub fn encoding_compatibility_error_with_store(_: &Store, _: String) -> MonorubyErr {
        MonorubyErr::Encoding
    }
    pub fn keyerr_with(msg: String, _: Value, _: Value) -> MonorubyErr {
        MonorubyErr::Key(msg)
    }
    pub fn method_not_found(_: &Store, _: IdentId, _: Value) -> MonorubyErr {
        MonorubyErr::NoMethod
    }
    pub fn float_out_of_range_of_integer(f: f64) -> MonorubyErr {
        MonorubyErr::Range(f.to_string())
    }
    pub fn floatdomainerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::FloatDomain(msg.to_string())
    }
    pub fn no_implicit_conversion(_: &Store, _: Value, _: ClassId) -> MonorubyErr {
        MonorubyErr::Type("no implicit conversion".into())
    }
    pub fn cant_convert_into_float(_: &Store, _: Value) -> MonorubyErr {
        MonorubyErr::Type("can't convert into Float".into())
    }
    pub fn cant_convert_error(_: &Store, _: Value, _: Value, target: &str, _: IdentId) -> MonorubyErr {
        MonorubyErr::Type(format!("can't convert to {target}"))
    }
    pub fn cant_convert_error_f(_: &Store, _: Value, _: Value) -> MonorubyErr {
        MonorubyErr::Type("can't convert to Float".into())
    }
    pub fn cant_convert_error_int(_: &Store, _: Value, _: Value) -> MonorubyErr {
        MonorubyErr::Type("can't convert to Integer".into())
    }
}

pub struct Store;
pub struct Globals {
    pub store: Store,
}
impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}
pub struct Executor;
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClassId(u32);
pub const INTEGER_CLASS: ClassId = ClassId(1);
pub const FLOAT_CLASS: ClassId = ClassId(2);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IdentId(u32);
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct FuncId(u32);
pub struct BlockHandler;

impl IdentId {
    pub const TO_S: IdentId = IdentId(1);
    pub const TO_F: IdentId = IdentId(2);
    pub const INSPECT: IdentId = IdentId(3);
    pub const TO_STR: IdentId = IdentId(4);
    pub const TO_INT: IdentId = IdentId(5);
    pub const TO_PATH: IdentId = IdentId(6);
    /// Nothing here is looked up by a name that has no constant.
    pub fn get_id(_: &str) -> IdentId {
        IdentId(0)
    }
}

impl Globals {
    pub fn new_test() -> Globals {
        Globals { store: Store }
    }
    /// The conversions every value answers to.
    pub fn check_method(&self, _: Value, id: IdentId) -> Option<FuncId> {
        [IdentId::TO_S, IdentId::INSPECT].contains(&id).then_some(FuncId(id.0))
    }
    pub fn get_gvar(&self, _: IdentId) -> Option<Value> {
        None
    }
}

impl Executor {
    pub fn invoke_method_inner(
        &mut self,
        globals: &mut Globals,
        _method: IdentId,
        recv: Value,
        _args: &[Value],
        _bh: Option<BlockHandler>,
        _kw: Option<()>,
    ) -> Result<Value> {
        Ok(Value::string_from_inner(RStringInner::from_string(recv.to_s(&globals.store))))
    }
    pub fn invoke_func_inner(
        &mut self,
        globals: &mut Globals,
        func: FuncId,
        recv: Value,
        _: &[Value],
        _: Option<BlockHandler>,
        _: Option<()>,
    ) -> Result<Value> {
        match IdentId(func.0) {
            IdentId::TO_S if recv.is_rstring_inner().is_some() => Ok(recv),
            IdentId::TO_S => Ok(Value::string(recv.to_s(&globals.store))),
            IdentId::INSPECT => Ok(Value::string(recv.inspect(&globals.store))),
            _ => Err(MonorubyErr::Type("no such function".into())),
        }
    }
    pub fn ruby_warn(&mut self, _: &mut Globals, _: &str) -> Result<()> {
        Ok(())
    }
}

/// What an object holds.
pub enum Kind {
    Str,
    Nil,
    Bool(bool),
    Fixnum(i64),
    Big(BigInt),
    Float(f64),
    Array(Vec<Value>),
    Symbol(String),
    Hash(Vec<(Value, Value)>),
}

/// A heap object; a string lies where the published offset says.
#[repr(C)]
pub struct Obj {
    head: [u64; RVALUE_OFFSET_KIND / 8],
    string: MaybeUninit<RStringInner>,
    kind: Kind,
    frozen: bool,
    old: bool,
    remembered: bool,
    marked: bool,
}

impl Drop for Obj {
    fn drop(&mut self) {
        if let Kind::Str = self.kind {
            unsafe { self.string.assume_init_drop() }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
#[repr(transparent)]
pub struct Value(NonZeroU64);

impl std::fmt::Debug for Value {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.obj().kind {
            Kind::Str => write!(f, "{:?}", self.as_rstring_inner().as_bytes()),
            Kind::Nil => write!(f, "nil"),
            Kind::Bool(b) => write!(f, "{b}"),
            Kind::Fixnum(i) => write!(f, "{i}"),
            Kind::Big(i) => write!(f, "{i}"),
            Kind::Float(x) => write!(f, "{x:?}"),
            Kind::Array(a) => write!(f, "{a:?}"),
            Kind::Symbol(s) => write!(f, ":{s}"),
            Kind::Hash(h) => write!(f, "{h:?}"),
        }
    }
}

pub enum RV<'a> {
    None,
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a BigInt),
    Float(f64),
    String(&'a RStringInner),
    Array(&'a [Value]),
    Symbol(&'a str),
    Hash(&'a [(Value, Value)]),
}

#[derive(Default)]
struct Heap {
    objects: Vec<Value>,
    /// The roots while a collection may be provoked by an allocation, and of which kind it is.
    roots: Vec<Value>,
    on_alloc: Option<bool>,
    collections: u64,
}

thread_local! {
    static HEAP: RefCell<Heap> = RefCell::new(Heap::default());
}

/// Collects: everything the roots do not reach is freed. A minor collection takes old objects to be
/// alive, and looks for young ones only behind young roots and remembered objects. Survivors are old.
pub fn collect(roots: &[Value], minor: bool) {
    let objects = HEAP.with(|h| {
        let mut h = h.borrow_mut();
        h.collections += 1;
        std::mem::take(&mut h.objects)
    });
    let mut todo: Vec<Value> = roots.to_vec();
    if minor {
        for v in &objects {
            if v.obj().old && v.obj().remembered {
                todo.extend(v.as_rstring_inner().shared_root());
            }
        }
    }
    while let Some(v) = todo.pop() {
        let o = v.obj_mut();
        if o.marked || (minor && o.old) {
            continue;
        }
        o.marked = true;
        match &o.kind {
            Kind::Str => todo.extend(v.as_rstring_inner().shared_root()),
            Kind::Array(a) => todo.extend(a.iter().copied()),
            Kind::Hash(h) => todo.extend(h.iter().flat_map(|(k, v)| [*k, *v])),
            _ => {}
        }
    }
    let mut kept = vec![];
    for v in objects {
        let o = v.obj_mut();
        if o.marked || (minor && o.old) {
            (o.marked, o.old, o.remembered) = (false, true, false);
            kept.push(v);
        } else {
            drop(unsafe { Box::from_raw(v.0.get() as *mut Obj) });
        }
    }
    HEAP.with(|h| h.borrow_mut().objects = kept);
}

/// Frees everything: the end of a case.
pub fn sweep_all() {
    HEAP.with(|h| h.borrow_mut().on_alloc = None);
    collect(&[], false);
}

/// From now on every allocation collects first, with these roots.
pub fn collect_on_alloc(minor: Option<bool>, roots: &[Value]) {
    HEAP.with(|h| {
        let mut h = h.borrow_mut();
        h.on_alloc = minor;
        h.roots = roots.to_vec();
    });
}

pub fn collections() -> u64 {
    HEAP.with(|h| h.borrow().collections)
}

impl Value {
    fn new(kind: Kind, string: Option<RStringInner>) -> Value {
        let due = HEAP.with(|h| h.borrow().on_alloc.map(|m| (m, h.borrow().roots.clone())));
        if let Some((minor, roots)) = due {
            collect(&roots, minor);
        }
        let obj = Box::new(Obj {
            head: [0; _],
            string: match string {
                Some(s) => MaybeUninit::new(s),
                None => MaybeUninit::uninit(),
            },
            kind,
            frozen: false,
            old: false,
            remembered: false,
            marked: false,
        });
        let v = Value(NonZeroU64::new(Box::into_raw(obj) as u64).unwrap());
        HEAP.with(|h| h.borrow_mut().objects.push(v));
        v
    }
    pub fn obj(&self) -> &'static Obj {
        unsafe { &*(self.0.get() as *const Obj) }
    }
    pub fn obj_mut(&self) -> &'static mut Obj {
        unsafe { &mut *(self.0.get() as *mut Obj) }
    }
    pub fn id(self) -> u64 {
        self.0.get()
    }
    pub fn string_from_inner(inner: RStringInner) -> Value {
        Value::new(Kind::Str, Some(inner))
    }
    pub fn string(s: impl Into<String>) -> Value {
        Value::string_from_inner(RStringInner::from_string(s.into()))
    }
    pub fn string_from_str(s: &str) -> Value {
        Value::string(s)
    }
    pub fn bytes(v: Vec<u8>) -> Value {
        Value::string_from_inner(RStringInner::bytes_from_vec(v))
    }
    pub fn bytes_from_slice(v: &[u8]) -> Value {
        Value::string_from_inner(RStringInner::bytes(v))
    }
    pub fn nil() -> Value {
        Value::new(Kind::Nil, None)
    }
    pub fn bool(b: bool) -> Value {
        Value::new(Kind::Bool(b), None)
    }
    pub fn is_nil(&self) -> bool {
        matches!(self.obj().kind, Kind::Nil)
    }
    pub fn fixnum(i: i64) -> Value {
        Value::integer(i)
    }
    pub fn integer(i: i64) -> Value {
        if (i64::MIN / 2..=i64::MAX / 2).contains(&i) {
            Value::new(Kind::Fixnum(i), None)
        } else {
            Value::new(Kind::Big(i.into()), None)
        }
    }
    pub fn integer_from_u64(i: u64) -> Value {
        Value::bigint(i.into())
    }
    pub fn bigint(i: BigInt) -> Value {
        match i.to_i64() {
            Some(i) if (i64::MIN / 2..=i64::MAX / 2).contains(&i) => Value::integer(i),
            _ => Value::new(Kind::Big(i), None),
        }
    }
    pub fn float(f: f64) -> Value {
        Value::new(Kind::Float(f), None)
    }
    pub fn array_from_vec(a: Vec<Value>) -> Value {
        Value::new(Kind::Array(a), None)
    }
    pub fn unpack(&self) -> RV<'static> {
        match &self.obj().kind {
            Kind::Str => RV::String(self.as_rstring_inner()),
            Kind::Nil => RV::Nil,
            Kind::Bool(b) => RV::Bool(*b),
            Kind::Fixnum(i) => RV::Fixnum(*i),
            Kind::Big(b) => RV::BigInt(b),
            Kind::Float(f) => RV::Float(*f),
            Kind::Array(a) => RV::Array(a),
            Kind::Symbol(s) => RV::Symbol(s),
            Kind::Hash(h) => RV::Hash(h),
        }
    }
    pub fn is_packed_value(&self) -> bool {
        matches!(self.obj().kind, Kind::Fixnum(_) | Kind::Nil | Kind::Bool(_))
    }
    pub fn is_str(&self) -> Option<&'static str> {
        self.is_rstring_inner().and_then(|s| std::str::from_utf8(s.as_bytes()).ok())
    }
    pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
        match self.obj().kind {
            Kind::Str => Some(self.as_rstring_inner()),
            _ => None,
        }
    }
    pub fn as_rstring_inner(&self) -> &'static RStringInner {
        assert!(matches!(self.obj().kind, Kind::Str));
        unsafe { self.obj().string.assume_init_ref() }
    }
    pub fn as_rstring_inner_mut(&mut self) -> &'static mut RStringInner {
        assert!(matches!(self.obj().kind, Kind::Str));
        unsafe { self.obj_mut().string.assume_init_mut() }
    }
    pub fn is_frozen(&self) -> bool {
        self.obj().frozen
    }
    pub fn set_frozen(&mut self) {
        self.obj_mut().frozen = true;
    }
    pub fn ensure_not_frozen(&self, store: &Store) -> Result<()> {
        if self.is_frozen() { Err(MonorubyErr::cant_modify_frozen(store, *self)) } else { Ok(()) }
    }
    pub fn write_barrier(&mut self, child: Value) {
        if self.obj().old && !child.obj().old {
            self.obj_mut().remembered = true;
        }
    }
    pub fn write_barrier_bulk(&mut self) {
        if self.obj().old {
            self.obj_mut().remembered = true;
        }
    }
    pub fn to_s(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn inspect(&self, _: &Store) -> String {
        format!("<{self:?}>")
    }
    pub fn symbol_from_str(s: &str) -> Value {
        Value::new(Kind::Symbol(s.into()), None)
    }
    pub fn is_integer(&self) -> bool {
        matches!(self.obj().kind, Kind::Fixnum(_) | Kind::Big(_))
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.obj().kind {
            Kind::Fixnum(i) => Some(i),
            _ => None,
        }
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.obj().kind {
            Kind::Float(f) => Some(f),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> bool {
        !matches!(self.obj().kind, Kind::Nil | Kind::Bool(false))
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        "Object".into()
    }
    /// The integer itself: what the interpreter converts from is not of interest here.
    pub fn big(&self) -> Option<BigInt> {
        match &self.obj().kind {
            Kind::Fixnum(i) => Some((*i).into()),
            Kind::Big(b) => Some(b.clone()),
            _ => None,
        }
    }
}

/// The encodings in use, with a name for messages.
pub const ENCODINGS: &[Encoding] = &[
    Encoding::Utf8,
    Encoding::Ascii8,
    Encoding::UsAscii,
    Encoding::EucJp,
    Encoding::Sjis(0),
    Encoding::Sjis(1),
    Encoding::Utf16Le,
    Encoding::Utf16Be,
    Encoding::Utf32Le,
    Encoding::Utf32Be,
    Encoding::Iso8859(1),
    Encoding::Iso8859(15),
    Encoding::NamedByte(0),
    Encoding::NamedByte(11),
    Encoding::Other(0),
    Encoding::Other(3),
];
