// What the numeric code of the interpreter needs around it: heap objects, classes, names, errors
// and calls to methods. The words a value is packed into, the arithmetic and the methods are the
// interpreter's own. Included at the root of a check.

pub use num::{BigInt, FromPrimitive, ToPrimitive, Zero};
pub use rubymap::{RubyEql, RubyHash};
pub use ruby_traits::{RubySymEql, RubySymHash};
pub use std::cell::RefCell;
pub use std::ops::{BitAnd, BitOr, BitXor};
pub use value::*;
pub use executor::op;
pub use monoruby_attr::monoruby_builtin;

pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub type BytecodePtr = ();

/// The random keys of the standard hasher, made the same in every run.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a };
    }
    len as isize
}

pub mod alloc {
    pub struct Allocator<T>(std::marker::PhantomData<T>);
    pub trait GC<T> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
}
pub use alloc::{Allocator, GC};

pub mod ast {
    pub enum NReal {
        Integer(i64),
        Bignum(num::BigInt),
        Float(f64),
    }
}

// ---- names --------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct IdentId(u32);

macro_rules! names {
    ($($id:ident = $name:expr),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        enum Fixed { $($id),* }
        const FIXED: &[&str] = &[$($name),*];
        #[allow(non_upper_case_globals)]
        impl IdentId {
            $(pub const $id: IdentId = IdentId(Fixed::$id as u32 + 1);)*
        }
    };
}
names! {
    _ADD = "+", _SUB = "-", _MUL = "*", _DIV = "/", _REM = "%", _POW = "**", _BOR = "|",
    _BAND = "&", _BXOR = "^", _SHL = "<<", _SHR = ">>", _EQ = "==", _NEQ = "!=", _TEQ = "===",
    _CMP = "<=>", _GE = ">=", _GT = ">", _LE = "<=", _LT = "<", _UMINUS = "-@", _UPLUS = "+@",
    _BNOT = "~", _NOT = "!", _INDEX = "[]", HASH = "hash", EQL_ = "eql?", TO_S = "to_s",
    TO_INT = "to_int", TO_I = "to_i", TO_F = "to_f", TO_R = "to_r", COERCE = "coerce",
    INSPECT = "inspect", TO_STR = "to_str", TO_ARY = "to_ary", TO_PATH = "to_path", EACH = "each",
}

thread_local! {
    static NAMES: RefCell<Vec<String>> = RefCell::new(FIXED.iter().map(|s| s.to_string()).collect());
    /// Whether a method is only looked up.
    static PROBING: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static HEAP: RefCell<Vec<*mut RValue>> = const { RefCell::new(vec![]) };
}

impl IdentId {
    pub fn get_id(name: &str) -> IdentId {
        NAMES.with(|n| {
            let mut n = n.borrow_mut();
            let i = n.iter().position(|s| s == name).unwrap_or_else(|| {
                n.push(name.to_string());
                n.len() - 1
            });
            IdentId(i as u32 + 1)
        })
    }
    pub fn get(self) -> u32 {
        self.0
    }
    pub fn get_name(self) -> String {
        NAMES.with(|n| n.borrow()[self.0 as usize - 1].clone())
    }
    pub fn compare(&self, other: &IdentId) -> std::cmp::Ordering {
        self.get_name().cmp(&other.get_name())
    }
}
impl From<u32> for IdentId {
    fn from(n: u32) -> IdentId {
        IdentId(n)
    }
}
impl std::fmt::Display for IdentId {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.get_name())
    }
}

// ---- classes ------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ClassId(u32);
pub const OBJECT_CLASS: ClassId = ClassId(1);
pub const NIL_CLASS: ClassId = ClassId(2);
pub const TRUE_CLASS: ClassId = ClassId(3);
pub const FALSE_CLASS: ClassId = ClassId(4);
pub const INTEGER_CLASS: ClassId = ClassId(5);
pub const FLOAT_CLASS: ClassId = ClassId(6);
pub const SYMBOL_CLASS: ClassId = ClassId(7);
pub const COMPLEX_CLASS: ClassId = ClassId(8);
pub const RATIONAL_CLASS: ClassId = ClassId(9);
pub const STRING_CLASS: ClassId = ClassId(10);
pub const ARRAY_CLASS: ClassId = ClassId(11);
pub const RANGE_CLASS: ClassId = ClassId(12);
pub const NUMERIC_CLASS: ClassId = ClassId(13);
pub const FLOAT_DOMAIN_CLASS: ClassId = ClassId(14);
pub const HASH_CLASS: ClassId = ClassId(15);
pub const PROC_CLASS: ClassId = ClassId(16);
pub const RANDOM_CLASS: ClassId = ClassId(17);

pub struct ConstRef(ClassId);
impl ConstRef {
    pub fn as_class_id(&self) -> ClassId {
        self.0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct FuncId(IdentId);

pub struct Store;
impl Store {
    pub fn basic_op_redefined(&self) -> bool {
        false
    }
    pub fn basic_op_redefined_for(&self, _: ClassId, _: IdentId) -> bool {
        false
    }
    pub fn no_to_str(&self, _: ClassId, _: u32) -> bool {
        true
    }
    pub fn custom_neq(&self, _: ClassId, _: u32) -> Option<FuncId> {
        None
    }
    pub fn get_constant_noautoload(&self, _: ClassId, name: IdentId) -> Option<ConstRef> {
        match name.get_name().as_str() {
            "Numeric" => Some(ConstRef(NUMERIC_CLASS)),
            "FloatDomainError" => Some(ConstRef(FLOAT_DOMAIN_CLASS)),
            _ => None,
        }
    }
    pub fn has_builtin_container_hash(&self, _: Value, _: ObjTy) -> bool {
        true
    }
    pub fn has_builtin_identity_hash(&self, _: Value) -> bool {
        false
    }
}

pub struct Globals {
    pub store: Store,
}
impl Globals {
    pub fn class_version() -> u32 {
        0
    }
    pub fn check_method(&self, recv: Value, name: IdentId) -> Option<FuncId> {
        PROBING.set(true);
        let known = dispatch(&mut Executor::default(), &mut world(), &name.get_name(), recv, &[]);
        PROBING.set(false);
        known.map(|_| FuncId(name))
    }
    pub fn find_method(&self, _: Value, name: IdentId, _: bool) -> Result<FuncId> {
        Ok(FuncId(name))
    }
}
impl std::ops::Deref for Globals {
    type Target = Store;
    fn deref(&self) -> &Store {
        &self.store
    }
}

pub fn world() -> Globals {
    Globals { store: Store }
}

// ---- errors -------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Type,
    Range,
    Argument,
    ZeroDivision,
    FloatDomain,
    NoMethod,
    Index,
}
pub enum MonorubyErrKind {
    Other(ClassId),
}
#[derive(Clone, Debug, PartialEq)]
pub struct MonorubyErr {
    pub kind: Kind,
    pub msg: String,
}

macro_rules! errors {
    ($($name:ident => $kind:ident),*) => {
        impl MonorubyErr {
            $(pub fn $name(msg: impl ToString) -> MonorubyErr {
                MonorubyErr { kind: Kind::$kind, msg: msg.to_string() }
            })*
        }
    };
}
errors!(typeerr => Type, rangeerr => Range, argumenterr => Argument, indexerr => Index);

impl MonorubyErr {
    pub fn new(kind: MonorubyErrKind, msg: impl ToString) -> MonorubyErr {
        let kind = match kind {
            MonorubyErrKind::Other(FLOAT_DOMAIN_CLASS) => Kind::FloatDomain,
            _ => Kind::Range,
        };
        MonorubyErr { kind, msg: msg.to_string() }
    }
    pub fn divide_by_zero() -> MonorubyErr {
        MonorubyErr { kind: Kind::ZeroDivision, msg: "divided by 0".into() }
    }
    pub fn exponent_is_too_large() -> MonorubyErr {
        Self::argumenterr("exponent is too large")
    }
    pub fn cant_coerced_into(_: &Store, op: IdentId, _: Value, to: &str) -> MonorubyErr {
        Self::typeerr(format!("{op}: operand can't be coerced into {to}"))
    }
    pub fn cant_convert_into_float(_: &Store, _: Value) -> MonorubyErr {
        Self::typeerr("can't convert into Float")
    }
    pub fn float_out_of_range_of_integer(f: f64) -> MonorubyErr {
        MonorubyErr { kind: Kind::FloatDomain, msg: f.to_string() }
    }
    pub fn no_implicit_conversion(_: &Store, _: Value, _: ClassId) -> MonorubyErr {
        Self::typeerr("no implicit conversion")
    }
    pub fn no_implicit_float_conversion(_: &Store, _: Value) -> MonorubyErr {
        Self::typeerr("no implicit conversion to float")
    }
    pub fn cant_convert_error_int(_: &Store, _: Value, _: Value) -> MonorubyErr {
        Self::typeerr("can't convert to Integer")
    }
    pub fn cant_convert_error_f(_: &Store, _: Value, _: Value) -> MonorubyErr {
        Self::typeerr("can't convert to Float")
    }
    pub fn method_not_found(_: &Store, name: IdentId, _: Value) -> MonorubyErr {
        MonorubyErr { kind: Kind::NoMethod, msg: name.get_name() }
    }
}

// ---- calls --------------------------------------------------------------------------------------

#[derive(Default)]
pub struct Executor {
    err: Option<MonorubyErr>,
    temp: Vec<Value>,
    /// Receivers and arguments of the calls in progress.
    frames: Vec<Vec<Value>>,
}

#[allow(clippy::too_many_arguments)]
impl Executor {
    pub fn set_error(&mut self, err: MonorubyErr) {
        self.err = Some(err);
    }
    pub fn take_error(&mut self) -> MonorubyErr {
        self.err.take().unwrap()
    }
    pub fn err_divide_by_zero(&mut self) {
        self.set_error(MonorubyErr::divide_by_zero());
    }
    pub fn err_type(&mut self, msg: impl ToString) {
        self.set_error(MonorubyErr::typeerr(msg));
    }
    pub fn with_temp_scope<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R {
        let len = self.temp.len();
        let res = f(self);
        self.temp.truncate(len);
        res
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temp.push(v);
    }

    pub fn invoke_method_inner(
        &mut self,
        globals: &mut Globals,
        name: IdentId,
        recv: Value,
        args: &[Value],
        _: Option<()>,
        _: Option<()>,
    ) -> Result<Value> {
        self.frames.push(std::iter::once(recv).chain(args.iter().copied()).collect());
        let res = dispatch(self, globals, &name.get_name(), recv, args);
        self.frames.pop();
        match res {
            Some(res) => res,
            None => Err(MonorubyErr::method_not_found(globals, name, recv)),
        }
    }
    pub fn invoke_func_inner(
        &mut self,
        globals: &mut Globals,
        func: FuncId,
        recv: Value,
        args: &[Value],
        a: Option<()>,
        b: Option<()>,
    ) -> Result<Value> {
        self.invoke_method_inner(globals, func.0, recv, args, a, b)
    }
    pub fn invoke_method_if_exists(
        &mut self,
        globals: &mut Globals,
        name: IdentId,
        recv: Value,
        args: &[Value],
        _: Option<()>,
        _: Option<()>,
    ) -> Result<Option<Value>> {
        dispatch(self, globals, &name.get_name(), recv, args).transpose()
    }
    pub fn invoke_method(
        &mut self,
        globals: &mut Globals,
        name: IdentId,
        _: bool,
        recv: Value,
        args: &[Value],
        a: Option<()>,
        b: Option<()>,
    ) -> Option<Value> {
        match self.invoke_method_inner(globals, name, recv, args, a, b) {
            Ok(v) => Some(v),
            Err(e) => {
                self.set_error(e);
                None
            }
        }
    }
    pub fn invoke_method_simple(
        &mut self,
        globals: &mut Globals,
        name: IdentId,
        recv: Value,
        args: &[Value],
    ) -> Option<Value> {
        self.invoke_method(globals, name, true, recv, args, None, None)
    }
    pub fn invoke_eq(&mut self, globals: &mut Globals, a: Value, b: Value) -> Result<bool> {
        Ok(self.invoke_method_inner(globals, IdentId::_EQ, a, &[b], None, None)?.as_bool())
    }
    pub fn invoke_eq_raw_vis(&mut self, g: &mut Globals, a: Value, b: Value, _: bool) -> Result<Value> {
        self.invoke_method_inner(g, IdentId::_EQ, a, &[b], None, None)
    }
    pub fn find_method(&mut self, g: &mut Globals, v: Value, name: IdentId, f: bool) -> Result<FuncId> {
        g.find_method(v, name, f)
    }
}

// ---- frames -------------------------------------------------------------------------------------

pub struct Frame {
    recv: Value,
    args: Vec<Option<Value>>,
    block: Option<BlockHandler>,
}
/// A block, by its place in what `BLOCKS` of the check holds.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct BlockHandler(pub usize);
#[derive(Clone, Copy)]
pub struct Lfp(*const Frame);
impl Lfp {
    fn frame(&self) -> &'static Frame {
        unsafe { &*self.0 }
    }
    pub fn self_val(&self) -> Value {
        self.frame().recv
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.frame().args.get(i).copied().flatten()
    }
    pub fn arg(&self, i: usize) -> Value {
        self.try_arg(i).unwrap()
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.frame().block
    }
}

pub type Method = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;

pub fn call_opt(f: Method, recv: Value, args: Vec<Option<Value>>) -> Result<Value> {
    call_block(f, recv, args, None)
}
pub fn call_block(f: Method, recv: Value, args: Vec<Option<Value>>, block: Option<BlockHandler>) -> Result<Value> {
    call_in(&mut Executor::default(), f, recv, args, block)
}
/// A call from within another.
pub fn call_in(
    vm: &mut Executor,
    f: Method,
    recv: Value,
    args: Vec<Option<Value>>,
    block: Option<BlockHandler>,
) -> Result<Value> {
    vm.frames.push(std::iter::once(recv).chain(args.iter().copied().flatten()).collect());
    let frame = Frame { recv, args, block };
    let res = f(vm, &mut world(), Lfp(&frame), ());
    vm.frames.pop();
    res
}
pub fn call(f: Method, recv: Value, args: &[Value]) -> Result<Value> {
    call_opt(f, recv, args.iter().map(|v| Some(*v)).collect())
}

// ---- heap objects -------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ObjTy(u8);
impl ObjTy {
    pub const BIGNUM: ObjTy = ObjTy(1);
    pub const FLOAT: ObjTy = ObjTy(2);
    pub const COMPLEX: ObjTy = ObjTy(3);
    pub const RATIONAL: ObjTy = ObjTy(4);
    pub const STRING: ObjTy = ObjTy(5);
    pub const ARRAY: ObjTy = ObjTy(6);
    pub const RANGE: ObjTy = ObjTy(7);
    pub const HASH: ObjTy = ObjTy(8);
    pub const OBJECT: ObjTy = ObjTy(9);
}

#[derive(Clone, Debug)]
pub enum Cell {
    Big(BigInt),
    Float(f64),
    Complex(ComplexInner),
    Rational(RationalInner),
    Str(RStringInner),
    Array(ArrayInner),
    Range(RangeInner),
    Hash(HashmapInner),
    Object(u32),
}

/// Objects of this kind are instances of Random.
pub const RANDOMS: u32 = 0xdddd;

#[derive(Clone, Debug)]
#[repr(align(16))]
pub struct RValue(Cell, Flags);

/// What the collector and `freeze` note in an object's header.
#[derive(Clone, Debug, Default)]
pub struct Flags {
    pub frozen: std::cell::Cell<bool>,
    pub old: std::cell::Cell<bool>,
    pub remembered: std::cell::Cell<bool>,
}

macro_rules! cells {
    ($($cell:ident $as_:ident $ty:ty),* $(,)?) => {
        #[allow(clippy::missing_safety_doc)]
        impl RValue {
            $(pub unsafe fn $as_(&self) -> &$ty {
                match &self.0 {
                    Cell::$cell(v) => v,
                    _ => unreachable!(),
                }
            })*
        }
    };
}
cells!(
    Big as_bignum BigInt, Complex as_complex ComplexInner, Rational as_rational RationalInner,
    Str as_rstring RStringInner, Array as_array ArrayInner, Range as_range RangeInner,
    Hash as_hashmap HashmapInner,
);

impl RValue {
    pub fn of(cell: Cell) -> RValue {
        RValue(cell, Flags::default())
    }
    pub fn flags(&self) -> &Flags {
        &self.1
    }
    pub fn new_bigint(b: BigInt) -> RValue {
        RValue::of(Cell::Big(b))
    }
    pub fn new_float(f: f64) -> RValue {
        RValue::of(Cell::Float(f))
    }
    pub fn new_complex(re: Real, im: Real) -> RValue {
        RValue::of(Cell::Complex(ComplexInner::new(re, im)))
    }
    pub fn new_complex_from(c: num::complex::Complex<Real>) -> RValue {
        RValue::of(Cell::Complex(c.into()))
    }
    pub fn new_rational(r: RationalInner) -> RValue {
        RValue::of(Cell::Rational(r))
    }
    pub fn pack(self) -> Value {
        let p = Box::into_raw(Box::new(self));
        HEAP.with(|h| h.borrow_mut().push(p));
        Value::from_ptr(p)
    }
    #[allow(clippy::missing_safety_doc)]
    pub unsafe fn as_float(&self) -> f64 {
        match &self.0 {
            Cell::Float(f) => *f,
            _ => unreachable!(),
        }
    }
    pub fn dup(&self) -> RValue {
        RValue::of(self.0.clone())
    }
    pub fn deep_copy(&self) -> RValue {
        self.clone()
    }
    pub fn id(&self) -> u64 {
        self as *const _ as u64
    }
    pub fn ty(&self) -> ObjTy {
        match &self.0 {
            Cell::Big(_) => ObjTy::BIGNUM,
            Cell::Float(_) => ObjTy::FLOAT,
            Cell::Complex(_) => ObjTy::COMPLEX,
            Cell::Rational(_) => ObjTy::RATIONAL,
            Cell::Str(_) => ObjTy::STRING,
            Cell::Array(_) => ObjTy::ARRAY,
            Cell::Range(_) => ObjTy::RANGE,
            Cell::Hash(_) => ObjTy::HASH,
            Cell::Object(_) => ObjTy::OBJECT,
        }
    }
    pub fn class(&self) -> ClassId {
        match &self.0 {
            Cell::Big(_) => INTEGER_CLASS,
            Cell::Float(_) => FLOAT_CLASS,
            Cell::Complex(_) => COMPLEX_CLASS,
            Cell::Rational(_) => RATIONAL_CLASS,
            Cell::Str(_) => STRING_CLASS,
            Cell::Array(_) => ARRAY_CLASS,
            Cell::Range(_) => RANGE_CLASS,
            Cell::Hash(_) => HASH_CLASS,
            Cell::Object(_) => OBJECT_CLASS,
        }
    }
    pub fn unpack(&self) -> RV<'_> {
        match &self.0 {
            Cell::Big(b) => RV::BigInt(b),
            Cell::Float(f) => RV::Float(*f),
            Cell::Complex(c) => RV::Complex(c),
            Cell::Rational(r) => RV::Rational(r),
            Cell::Str(s) => RV::String(s),
            _ => RV::Object(self),
        }
    }
}
impl GC<RValue> for RValue {
    fn mark(&self, _: &mut Allocator<RValue>) {}
}
impl GC<RValue> for Value {
    fn mark(&self, _: &mut Allocator<RValue>) {}
}
impl PartialEq for RValue {
    fn eq(&self, other: &RValue) -> bool {
        std::ptr::eq(self, other)
    }
}

/// Frees every object made since the last sweep.
pub fn sweep_all() {
    HEAP.with(|h| {
        for p in h.borrow_mut().drain(..) {
            drop(unsafe { Box::from_raw(p) });
        }
    });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Encoding {
    UsAscii,
    Utf8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct RStringInner(Vec<u8>);
impl RStringInner {
    pub fn from_encoding(bytes: &[u8], _: Encoding) -> RStringInner {
        RStringInner(bytes.to_vec())
    }
    pub fn from_str(s: &str) -> RStringInner {
        RStringInner(s.as_bytes().to_vec())
    }
    pub fn as_bytes(&self) -> &[u8] {
        &self.0
    }
    pub fn compatible_encoding(&self, _: &RStringInner) -> Option<Encoding> {
        Some(Encoding::Utf8)
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.0).into_owned()
    }
}
impl std::ops::Deref for RStringInner {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

#[derive(Clone, Debug)]
pub struct HashmapInner;
#[derive(Clone, Debug)]
pub struct RangeInner {
    start: Value,
    end: Value,
    exclude: bool,
}
impl RangeInner {
    pub fn start(&self) -> Value {
        self.start
    }
    pub fn end(&self) -> Value {
        self.end
    }
    pub fn exclude_end(&self) -> bool {
        self.exclude
    }
}

macro_rules! by_elements {
    ($($ty:ty, |$s:ident| $parts:expr);* $(;)?) => {$(
        impl RubyHash<Executor, Globals, MonorubyErr> for $ty {
            fn ruby_hash<H: std::hash::Hasher>(&self, state: &mut H, e: &mut Executor, g: &mut Globals) -> Result<()> {
                let $s = self;
                for v in $parts {
                    v.ruby_hash(state, e, g)?;
                }
                Ok(())
            }
        }
        impl RubyEql<Executor, Globals, MonorubyErr> for $ty {
            fn eql(&self, other: &Self, vm: &mut Executor, globals: &mut Globals) -> Result<bool> {
                let $s = self;
                let a: Vec<Value> = $parts.into_iter().collect();
                let $s = other;
                let b: Vec<Value> = $parts.into_iter().collect();
                if a.len() != b.len() {
                    return Ok(false);
                }
                for (a, b) in a.iter().zip(&b) {
                    if !a.eql(b, vm, globals)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
        }
    )*};
}
by_elements! {
    HashmapInner, |_s| Vec::<Value>::new();
    RangeInner, |s| [s.start, s.end, Value::bool(s.exclude)];
}

impl Value {
    pub fn cell(self) -> Option<&'static Cell> {
        self.try_rvalue().map(|r| unsafe { &(*(r as *const RValue)).0 })
    }
    pub fn string(s: impl AsRef<str>) -> Value {
        RValue::of(Cell::Str(RStringInner::from_str(s.as_ref()))).pack()
    }
    pub fn string_from_inner(s: RStringInner) -> Value {
        RValue::of(Cell::Str(s)).pack()
    }
    pub fn array2(a: Value, b: Value) -> Value {
        Self::array_from_vec(vec![a, b])
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        RValue::of(Cell::Array(ArrayInner::from_vec(v))).pack()
    }
    pub fn range(start: Value, end: Value, exclude: bool) -> Value {
        RValue::of(Cell::Range(RangeInner { start, end, exclude })).pack()
    }
    pub fn is_range(&self) -> Option<&'static RangeInner> {
        match self.cell() {
            Some(Cell::Range(r)) => Some(r),
            _ => None,
        }
    }
    pub fn is_str(&self) -> Option<&'static str> {
        match self.cell() {
            Some(Cell::Str(s)) => std::str::from_utf8(&s.0).ok(),
            _ => None,
        }
    }
    pub fn try_array_ty(&self) -> Option<Array> {
        matches!(self.cell(), Some(Cell::Array(_))).then_some(Array::new_unchecked(*self))
    }
    pub fn as_array(self) -> Array {
        self.try_array_ty().unwrap()
    }
    pub fn as_str(&self) -> &'static str {
        self.is_str().unwrap()
    }
    pub fn is_linear(&self) -> bool {
        false
    }
    pub fn debug(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn to_s(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn inspect(&self, _: &Store) -> String {
        format!("{self:?}")
    }
    pub fn get_real_class_name(&self, _: &Store) -> String {
        "Object".into()
    }
    pub fn is_kind_of(&self, _: &Store, class: ClassId) -> bool {
        class == RANDOM_CLASS && matches!(self.cell(), Some(Cell::Object(n)) if n >> 8 == RANDOMS)
            || class == NUMERIC_CLASS
            && (self.is_integer()
                || self.try_float().is_some()
                || matches!(self.cell(), Some(Cell::Complex(_) | Cell::Rational(_))))
    }
}

pub mod value {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/value.rs"));
    #[path = "/repo/monoruby/src/value/numeric.rs"]
    pub mod numeric;
    pub mod coerce {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/coerce_num.rs"));
    }
    pub mod rvalue {
        use super::*;
        #[path = "/repo/monoruby/src/value/rvalue/complex.rs"]
        pub mod complex;
        #[path = "/repo/monoruby/src/value/rvalue/rational.rs"]
        pub mod rational;
        pub use super::super::{Encoding, RStringInner};
        pub use complex::*;
        pub use rational::*;
    }
    pub use crate::lists::*;
    pub use numeric::*;
    pub use rvalue::{ComplexInner, RationalFloorResult, RationalInner};
}

pub mod executor {
    use super::*;
    pub mod op {
        use super::*;
        #[path = "/repo/monoruby/src/executor/op/binary_ops.rs"]
        pub(crate) mod binary_ops;
        pub(crate) use binary_ops::*;
        #[path = "/repo/monoruby/src/executor/op/sort.rs"]
        pub(crate) mod sort;
        pub(crate) use sort::*;
        include!(concat!(env!("OUT_DIR"), "/op.rs"));
    }
}
