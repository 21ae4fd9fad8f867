// Stand-ins for what IO::Buffer uses of the interpreter: values with a small heap of their own,
// strings of plain bytes, frames, blocks and the registration of methods.

use std::cell::RefCell;
use std::collections::HashMap;
pub use monoruby_attr::monoruby_builtin;

pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub type BytecodePtr = ();

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClassId(pub u32);
pub const IO_CLASS: ClassId = ClassId(1);
pub const IO_BUFFER_CLASS: ClassId = ClassId(2);
pub const STRING_CLASS: ClassId = ClassId(3);
pub const OBJECT_CLASS: ClassId = ClassId(4);
impl ClassId {
    pub fn id(&self) -> ClassId {
        *self
    }
}

#[derive(Clone, Debug)]
pub enum MonorubyErrKind {
    Other(ClassId),
    MethodReturn(Value, Lfp),
    Argument,
    Type,
    Range,
    Runtime,
    Raised,
}
#[derive(Clone, Debug)]
pub struct MonorubyErr {
    pub kind: MonorubyErrKind,
    pub msg: String,
}
impl MonorubyErr {
    pub fn new(kind: MonorubyErrKind, msg: impl ToString) -> Self {
        MonorubyErr { kind, msg: msg.to_string() }
    }
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
    pub fn argumenterr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Argument, m)
    }
    pub fn typeerr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Type, m)
    }
    pub fn rangeerr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Range, m)
    }
    pub fn runtimeerr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Runtime, m)
    }
    pub fn localjumperr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Runtime, m)
    }
    pub fn frozenerr(m: impl ToString) -> Self {
        Self::new(MonorubyErrKind::Runtime, m)
    }
    pub fn no_implicit_conversion(_: &Globals, _: Value, _: ClassId) -> Self {
        Self::typeerr("no implicit conversion")
    }
    pub fn errno_with_msg(_: &Store, e: &std::io::Error, _: &str) -> Self {
        Self::runtimeerr(e)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ObjTy(pub u8);
impl ObjTy {
    pub const IO_BUFFER: ObjTy = ObjTy(1);
    pub const IO: ObjTy = ObjTy(2);
    pub const OTHER: ObjTy = ObjTy(3);
}

/// A string of the program: its bytes may be shared with a literal until they are written to.
#[derive(Clone, Debug)]
pub struct RStringInner {
    bytes: Vec<u8>,
    shared: bool,
    pub enc: value::Encoding,
}
impl RStringInner {
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes
    }
    pub fn len(&self) -> usize {
        self.bytes.len()
    }
    pub fn is_empty(&self) -> bool {
        self.bytes.is_empty()
    }
    pub fn set_byte(&mut self, i: usize, b: u8) {
        if self.shared {
            self.bytes = self.bytes.clone();
            self.shared = false;
        }
        self.bytes[i] = b;
    }
    pub fn set_encoding(&mut self, e: value::Encoding) {
        self.enc = e;
    }
    /// What the program does to the string itself.
    pub fn replace(&mut self, b: Vec<u8>) {
        self.bytes = b;
    }
}
#[derive(Clone, Copy)]
pub struct RString(Value);
impl std::ops::Deref for RString {
    type Target = RStringInner;
    fn deref(&self) -> &RStringInner {
        self.0.as_rstring_inner()
    }
}
impl From<RString> for Value {
    fn from(s: RString) -> Value {
        s.0
    }
}

#[derive(Debug)]
pub enum Obj {
    Big(num::BigInt),
    Float(f64),
    Str(RStringInner, bool),
    Sym(String),
    Arr(Vec<Value>),
    Buf(value::rvalue::IoBufferInner),
    /// An object that turns into a number by running the program's code.
    Number(Value),
}
pub struct RValue {
    pub marked: bool,
    pub obj: Obj,
}
impl RValue {
    pub fn ty(&self) -> ObjTy {
        match self.obj {
            Obj::Buf(_) => ObjTy::IO_BUFFER,
            _ => ObjTy::OTHER,
        }
    }
}

thread_local! {
    static HEAP: RefCell<Vec<*mut RValue>> = const { RefCell::new(vec![]) };
}

/// Small integers are odd words, everything else that is not nil, true or false lives in the heap.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Value(u64);

pub enum RV<'a> {
    Nil,
    Bool(bool),
    Fixnum(i64),
    BigInt(&'a num::BigInt),
    Float(f64),
    String(&'a RStringInner),
    Symbol(IdentId),
    Object(&'a RValue),
}

impl Value {
    pub fn new(obj: Obj) -> Value {
        let p = Box::into_raw(Box::new(RValue { marked: false, obj }));
        HEAP.with(|h| h.borrow_mut().push(p));
        Value(p as u64)
    }
    pub fn nil() -> Value {
        Value(4)
    }
    pub fn bool(b: bool) -> Value {
        Value(if b { 20 } else { 12 })
    }
    pub fn fixnum(i: i64) -> Value {
        Value::integer(i)
    }
    pub fn integer(i: i64) -> Value {
        if (i << 1) >> 1 == i { Value((i as u64) << 1 | 1) } else { Value::bigint(num::BigInt::from(i)) }
    }
    pub fn bigint(b: num::BigInt) -> Value {
        Value::new(Obj::Big(b))
    }
    pub fn integer_from_u64(n: u64) -> Value {
        if n < 1 << 62 { Value::integer(n as i64) } else { Value::bigint(num::BigInt::from(n)) }
    }
    pub fn float(f: f64) -> Value {
        Value::new(Obj::Float(f))
    }
    pub fn bytes(b: Vec<u8>) -> Value {
        Value::new(Obj::Str(RStringInner { bytes: b, shared: false, enc: value::Encoding::Ascii8 }, false))
    }
    pub fn text(b: Vec<u8>, shared: bool, frozen: bool) -> Value {
        Value::new(Obj::Str(RStringInner { bytes: b, shared, enc: value::Encoding::Utf8 }, frozen))
    }
    pub fn string(s: String) -> Value {
        Value::text(s.into_bytes(), false, false)
    }
    pub fn symbol(s: &str) -> Value {
        Value::new(Obj::Sym(s.to_string()))
    }
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        Value::new(Obj::Arr(v))
    }
    pub fn new_io_buffer(b: value::rvalue::IoBufferInner) -> Value {
        Value::new(Obj::Buf(b))
    }
    pub fn change_class(&mut self, _: ClassId) {}
    pub fn is_nil(&self) -> bool {
        self.0 == 4
    }
    pub fn as_bool(&self) -> bool {
        self.0 != 4 && self.0 != 12
    }
    fn is_packed(&self) -> bool {
        self.0 & 1 == 1 || self.0 < 64
    }
    pub fn obj(&self) -> &'static mut Obj {
        assert!(!self.is_packed(), "not an object");
        unsafe { &mut (*(self.0 as *mut RValue)).obj }
    }
    pub fn try_rvalue(&self) -> Option<&'static RValue> {
        (!self.is_packed()).then(|| unsafe { &*(self.0 as *const RValue) })
    }
    pub fn unpack(&self) -> RV<'static> {
        if self.0 & 1 == 1 {
            return RV::Fixnum(self.0 as i64 >> 1);
        }
        match self.0 {
            4 => RV::Nil,
            12 => RV::Bool(false),
            20 => RV::Bool(true),
            _ => match self.obj() {
                Obj::Big(b) => match i64::try_from(&*b) {
                    Ok(i) => RV::Fixnum(i),
                    Err(_) => RV::BigInt(b),
                },
                Obj::Float(f) => RV::Float(*f),
                Obj::Str(s, _) => RV::String(s),
                Obj::Sym(s) => RV::Symbol(IdentId::get_id(s)),
                _ => RV::Object(self.try_rvalue().unwrap()),
            },
        }
    }
    pub fn try_fixnum(&self) -> Option<i64> {
        match self.unpack() {
            RV::Fixnum(i) => Some(i),
            _ => None,
        }
    }
    pub fn try_float(&self) -> Option<f64> {
        match self.unpack() {
            RV::Float(f) => Some(f),
            _ => None,
        }
    }
    pub fn try_symbol_or_string(&self) -> Option<IdentId> {
        match self.unpack() {
            RV::Symbol(i) => Some(i),
            RV::String(s) => Some(IdentId::get_id(std::str::from_utf8(s.as_bytes()).ok()?)),
            _ => None,
        }
    }
    pub fn is_class(&self) -> Option<ClassId> {
        self.try_fixnum().map(|i| ClassId(i as u32))
    }
    pub fn is_frozen(&self) -> bool {
        !self.is_packed() && matches!(self.obj(), Obj::Str(_, true))
    }
    pub fn is_rstring(&self) -> Option<RString> {
        (!self.is_packed() && matches!(self.obj(), Obj::Str(..))).then_some(RString(*self))
    }
    pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
        self.is_rstring().map(|s| s.0.as_rstring_inner())
    }
    pub fn as_rstring_inner(&self) -> &'static RStringInner {
        self.as_rstring_inner_mut2()
    }
    pub fn as_rstring_inner_mut(&mut self) -> &'static mut RStringInner {
        self.as_rstring_inner_mut2()
    }
    pub fn as_rstring_inner_mut2(&self) -> &'static mut RStringInner {
        match self.obj() {
            Obj::Str(s, _) => s,
            o => panic!("not a string: {o:?}"),
        }
    }
    pub fn as_io_buffer_inner(&self) -> &'static value::rvalue::IoBufferInner {
        match self.obj() {
            Obj::Buf(b) => b,
            o => panic!("not a buffer: {o:?}"),
        }
    }
    pub fn as_io_buffer_inner_mut(&mut self) -> &'static mut value::rvalue::IoBufferInner {
        match self.obj() {
            Obj::Buf(b) => b,
            o => panic!("not a buffer: {o:?}"),
        }
    }
    pub fn as_io_inner(&self) -> Fd {
        unreachable!()
    }
    pub fn get_real_class_name(&self, _: &Globals) -> String {
        "Something".to_string()
    }
    pub fn coerce_to_int_i64(&self, vm: &mut Executor, globals: &mut Globals) -> Result<i64> {
        match self.coerce_to_int(vm, globals)?.unpack() {
            RV::Fixnum(i) => Ok(i),
            _ => Err(MonorubyErr::rangeerr("bignum too big to convert into 'long'")),
        }
    }
    pub fn coerce_to_int(&self, vm: &mut Executor, _: &mut Globals) -> Result<Value> {
        match self.unpack() {
            RV::Fixnum(_) | RV::BigInt(_) => Ok(*self),
            RV::Float(f) => Ok(Value::integer(f as i64)),
            RV::Object(RValue { obj: Obj::Number(n), .. }) => {
                let n = *n;
                vm.event(&[])?;
                Ok(n)
            }
            _ => Err(MonorubyErr::typeerr("no implicit conversion into Integer")),
        }
    }
    pub fn coerce_to_pack_u64(&self, vm: &mut Executor, globals: &mut Globals) -> Result<u64> {
        match self.coerce_to_int(vm, globals)?.unpack() {
            RV::Fixnum(i) => Ok(i as u64),
            RV::BigInt(b) => {
                let low: num::BigInt = b & num::BigInt::from(u64::MAX);
                Ok(u64::try_from(&low).unwrap())
            }
            _ => unreachable!(),
        }
    }
    pub fn coerce_to_rstring(&self, _: &mut Executor, _: &mut Globals) -> Result<RString> {
        self.is_rstring().ok_or_else(|| MonorubyErr::typeerr("no implicit conversion into String"))
    }
    pub fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
        alloc.0.push(*self);
    }
}
pub struct Fd;
impl Fd {
    pub fn fileno(&self) -> Result<i32> {
        unreachable!()
    }
}

pub mod alloc {
    pub struct Allocator<T>(pub Vec<super::Value>, pub std::marker::PhantomData<T>);
}

/// Frees what cannot be reached from `roots`.
pub fn collect(roots: Vec<Value>) {
    let mut a = alloc::Allocator::<RValue>(roots, std::marker::PhantomData);
    while let Some(v) = a.0.pop() {
        if v.is_packed() {
            continue;
        }
        let r = unsafe { &mut *(v.0 as *mut RValue) };
        if std::mem::replace(&mut r.marked, true) {
            continue;
        }
        match &r.obj {
            Obj::Arr(l) => a.0.extend(l),
            Obj::Number(n) => a.0.push(*n),
            Obj::Buf(b) => b.mark(&mut a),
            _ => {}
        }
    }
    HEAP.with(|h| {
        h.borrow_mut().retain(|p| unsafe {
            let keep = std::mem::replace(&mut (**p).marked, false);
            if !keep {
                drop(Box::from_raw(*p));
            }
            keep
        })
    });
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct IdentId(&'static str);
impl IdentId {
    pub fn get_id(s: &str) -> IdentId {
        thread_local!(static NAMES: RefCell<std::collections::BTreeSet<&'static str>> = const { RefCell::new(std::collections::BTreeSet::new()) });
        NAMES.with(|n| {
            let mut n = n.borrow_mut();
            match n.get(s) {
                Some(s) => IdentId(s),
                None => {
                    let l: &'static str = s.to_string().leak();
                    n.insert(l);
                    IdentId(l)
                }
            }
        })
    }
    pub fn get_name(&self) -> String {
        self.0.to_string()
    }
}

pub struct Frame {
    recv: Value,
    args: Vec<Value>,
    block: bool,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Lfp(*const Frame);
#[derive(Clone, Copy)]
pub struct BlockHandler;
pub struct ProcData;
impl Lfp {
    fn frame(&self) -> &'static Frame {
        unsafe { &*self.0 }
    }
    pub fn self_val(&self) -> Value {
        self.frame().recv
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.frame().args.get(i).copied()
    }
    pub fn arg(&self, i: usize) -> Value {
        self.frame().args[i]
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.frame().block.then_some(BlockHandler)
    }
    pub fn func_id(&self) {}
}

pub type Method = extern "C" fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Option<Value>;
type Alloc = extern "C" fn(ClassId, &mut Globals) -> Value;
#[derive(Default)]
pub struct ClassInfo(Option<Alloc>);
impl ClassInfo {
    pub fn set_alloc_func(&mut self, f: Alloc) {
        self.0 = Some(f);
    }
}
#[derive(Default)]
pub struct Store(ClassInfo);
impl std::ops::Index<ClassId> for Store {
    type Output = ClassInfo;
    fn index(&self, _: ClassId) -> &ClassInfo {
        &self.0
    }
}
impl std::ops::IndexMut<ClassId> for Store {
    fn index_mut(&mut self, _: ClassId) -> &mut ClassInfo {
        &mut self.0
    }
}
impl Store {
    /// The classes of errors, each a number of its own.
    pub fn get_constant_noautoload(&self, _: ClassId, name: IdentId) -> Option<Value> {
        ["LockedError", "AccessError", "InvalidatedError", "AllocationError", "MaskError"].iter().position(|n| *n == name.0).map(|i| Value::integer(100 + i as i64))
    }
}
#[derive(Default)]
pub struct Globals {
    pub store: Store,
    methods: HashMap<String, (Method, usize, usize)>,
}
impl Globals {
    pub fn object_class(&mut self) -> ClassId {
        OBJECT_CLASS
    }
    pub fn define_builtin_class(&mut self, _: &str, _: ClassId, _: ClassId, _: ClassId, _: ObjTy) {}
    pub fn set_constant_by_str(&mut self, _: ClassId, _: &str, _: Value) {}
    pub fn define_builtin_func(&mut self, _: ClassId, name: &str, f: Method, n: usize) {
        self.methods.insert(name.into(), (f, n, n));
    }
    pub fn define_builtin_func_with(&mut self, _: ClassId, name: &str, f: Method, n: usize, m: usize, _: bool) {
        self.methods.insert(name.into(), (f, n, m));
    }
    pub fn define_private_builtin_func_with(&mut self, _: ClassId, name: &str, f: Method, n: usize, m: usize, _: bool) {
        self.methods.insert(name.into(), (f, n, m));
    }
    pub fn define_builtin_class_func(&mut self, _: ClassId, name: &str, f: Method, n: usize) {
        self.methods.insert(format!(".{name}"), (f, n, n));
    }
    pub fn define_builtin_class_func_with(&mut self, _: ClassId, name: &str, f: Method, n: usize, m: usize, _: bool) {
        self.methods.insert(format!(".{name}"), (f, n, m));
    }
    pub fn check_method(&self, _: Value, _: IdentId) -> Option<()> {
        None
    }
    pub fn buffer(&mut self) -> Value {
        self.store.0.0.expect("no way to allocate a buffer")(IO_BUFFER_CLASS, self)
    }
}

#[derive(Default)]
pub struct Executor {
    pub temp: Vec<Value>,
    pub frames: Vec<*const Frame>,
    /// What the program holds on to.
    pub vars: Vec<Value>,
    pub error: Option<MonorubyErr>,
    /// What happens at the next runs of the program's code.
    pub script: Vec<Step>,
    pub log: Vec<Vec<Seen>>,
    /// What the next block calls on its argument, and what came of it.
    pub hook: Option<(&'static str, Vec<Value>)>,
    pub hook_block: bool,
    pub kept: Option<Result<Value>>,
}
#[derive(Clone, Debug)]
pub struct Step {
    pub act: Act,
    pub collect: bool,
    pub raise: bool,
}
/// What the program does to a buffer while another method is at work.
#[derive(Clone, Debug)]
pub enum Act {
    Nothing,
    Call(usize, &'static str, Vec<i64>),
    Replace(usize, Vec<u8>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    Int(i128),
    Float(u64),
    Bytes(Vec<u8>),
    Nil,
    Bool(bool),
    List(Vec<Seen>),
    Buffer,
    Other,
}
pub fn see(v: Value) -> Seen {
    match v.unpack() {
        RV::Fixnum(i) => Seen::Int(i as i128),
        RV::BigInt(b) => Seen::Int(b.to_string().parse().unwrap()),
        RV::Float(f) => Seen::Float(f.to_bits()),
        RV::String(s) => Seen::Bytes(s.as_bytes().to_vec()),
        RV::Nil => Seen::Nil,
        RV::Bool(b) => Seen::Bool(b),
        _ => match v.obj() {
            Obj::Arr(l) => Seen::List(l.iter().map(|v| see(*v)).collect()),
            Obj::Buf(_) => Seen::Buffer,
            _ => Seen::Other,
        },
    }
}
impl Executor {
    pub fn event(&mut self, args: &[Value]) -> Result<()> {
        let frame = Frame { recv: Value::nil(), args: args.to_vec(), block: false };
        self.frames.push(&frame);
        self.log.push(args.iter().map(|v| see(*v)).collect());
        if let Some((name, a)) = self.hook.take() {
            let r = call(self, name, args[0], a, self.hook_block);
            if let Ok(v) = &r {
                self.vars.push(*v);
            }
            self.kept = Some(r);
        }
        let step = if self.script.is_empty() { None } else { Some(self.script.remove(0)) };
        if let Some(step) = &step {
            match &step.act {
                Act::Nothing => {}
                Act::Call(on, name, args) => {
                    let args = args.iter().map(|i| Value::integer(*i)).collect();
                    let _ = call(self, name, self.vars[*on], args, false);
                }
                Act::Replace(on, b) => self.vars[*on].as_rstring_inner_mut2().replace(b.clone()),
            }
            if step.collect {
                self.collect();
            }
        }
        self.frames.pop();
        if step.is_some_and(|s| s.raise) { Err(MonorubyErr::new(MonorubyErrKind::Raised, "")) } else { Ok(()) }
    }
    pub fn collect(&self) {
        let mut roots = self.temp.clone();
        roots.extend(&self.vars);
        for f in &self.frames {
            let f = unsafe { &**f };
            roots.push(f.recv);
            roots.extend(&f.args);
        }
        collect(roots);
    }
    pub fn set_error(&mut self, e: MonorubyErr) {
        self.error = Some(e);
    }
    pub fn get_block_data(&mut self, _: &mut Globals, _: BlockHandler) -> Result<ProcData> {
        Ok(ProcData)
    }
    pub fn invoke_block(&mut self, _: &mut Globals, _: &ProcData, args: &[Value]) -> Result<Value> {
        self.event(args)?;
        Ok(Value::nil())
    }
    pub fn invoke_block_once(&mut self, globals: &mut Globals, _: BlockHandler, args: &[Value]) -> Result<Value> {
        self.invoke_block(globals, &ProcData, args)
    }
    pub fn invoke_method_inner(&mut self, _: &mut Globals, _: IdentId, _: Value, _: &[Value], _: Option<BlockHandler>, _: Option<Value>) -> Result<Value> {
        unreachable!()
    }
    pub fn generate_enumerator(&mut self, _: IdentId, recv: Value, _: Vec<Value>, _: BytecodePtr) -> Result<Value> {
        Ok(recv)
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temp.push(v);
    }
    pub fn temp_len(&self) -> usize {
        self.temp.len()
    }
    pub fn temp_clear(&mut self, n: usize) {
        self.temp.truncate(n);
    }
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temp.len();
        let r = f(self);
        self.temp.truncate(n);
        r
    }
}

pub mod builtins {
    use super::*;
    pub mod kernel {
        use super::*;
        pub fn push_builtin_trace(_: &mut Executor, _: &Globals, _: &mut MonorubyErr, _: ()) {}
    }
    pub mod io {
        use super::*;
        pub fn enc_obj_to_enum(_: &Globals, _: Value) -> Option<crate::value::Encoding> {
            Some(crate::value::Encoding::Utf8)
        }
    }
    #[path = "/repo/monoruby/src/builtins/io_buffer.rs"]
    pub mod io_buffer;
    pub fn init(globals: &mut Globals) {
        io_buffer::init(globals)
    }
}
pub mod value {
    pub use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub enum Encoding {
        Ascii8,
        Utf8,
    }
    pub mod rvalue {
        pub use super::*;
        #[path = "/repo/monoruby/src/value/rvalue/io_buffer.rs"]
        pub mod io_buffer;
        pub use io_buffer::*;
    }
}
pub use builtins::init;

/// Calls a method by its name.
pub fn call(vm: &mut Executor, name: &str, recv: Value, args: Vec<Value>, block: bool) -> Result<Value> {
    thread_local!(static G: std::cell::UnsafeCell<Option<Globals>> = const { std::cell::UnsafeCell::new(None) });
    let g = G.with(|g| g.get());
    let g = unsafe { &mut *g }.get_or_insert_with(|| {
        let mut g = Globals::default();
        builtins::init(&mut g);
        g
    });
    let (f, least, most) = match g.methods.get(name) {
        Some(m) => *m,
        None => return if name == "allocate" { Ok(g.buffer()) } else { panic!("there is no {name}") },
    };
    assert!((least..=most).contains(&args.len()), "{name} called with {} arguments", args.len());
    let frame = Frame { recv, args, block };
    vm.frames.push(&frame);
    let r = f(vm, g, Lfp(&frame), ());
    vm.frames.pop();
    r.ok_or_else(|| vm.error.take().expect("no error"))
}
