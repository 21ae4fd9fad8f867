//! Methods of hashes against lists of pairs.
#![allow(dead_code, unused)]
use pbt::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::mem::ManuallyDrop;
use std::num::NonZeroU64;

/// The random keys of the standard hasher, made the same in every run.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a };
    }
    len as isize
}

pub mod value {
    use super::*;
    pub fn seeded_hasher() -> std::collections::hash_map::DefaultHasher {
        std::collections::hash_map::DefaultHasher::new()
    }
    pub fn symbol_hash_label(id: IdentId, _escape: bool) -> String {
        format!("{id}")
    }
    pub use super::rvalue::*;
    pub const TRUE_VALUE: u64 = super::rvalue::TRUE;
    pub const FALSE_VALUE: u64 = super::rvalue::FALSE;
    /// No hash here holds a hash.
    pub fn exec_recursive_outer<T>(_: u64, f: impl FnOnce() -> Result<T>, _: T) -> Result<T> {
        f()
    }
    pub fn exec_recursive_paired(_: u64, _: u64, f: impl FnOnce() -> Result<Value>, _: Value) -> Result<Value> {
        f()
    }
}

pub mod alloc {
    use super::*;
    pub trait GC<T: GCBox> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub trait GCBox {}
    /// Records what was marked and knows which objects are old.
    pub struct Allocator<T> {
        pub marked: BTreeSet<u64>,
        pub old: BTreeSet<u64>,
        pub _t: std::marker::PhantomData<T>,
    }
    impl<T> Allocator<T> {
        pub fn new() -> Self {
            Allocator { marked: BTreeSet::new(), old: BTreeSet::new(), _t: std::marker::PhantomData }
        }
        pub fn is_old(&self, p: &T) -> bool {
            self.old.contains(&(p as *const T as u64))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct IdentId(u32);
impl IdentId {
    pub const EACH: IdentId = IdentId(1);
    pub const HASH: IdentId = IdentId(2);
    pub const EQL_: IdentId = IdentId(3);
    pub const TO_ARY: IdentId = IdentId(4);
    pub const DEFAULT: IdentId = IdentId(5);
    pub const TO_A: IdentId = IdentId(6);
    pub fn get_id(name: &str) -> IdentId {
        match name {
            "hash" => Self::HASH,
            "eql?" => Self::EQL_,
            "default" => Self::DEFAULT,
            _ => IdentId(9),
        }
    }
}
impl std::fmt::Display for IdentId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "s{}", self.0)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct ClassId(u32);
pub const HASH_CLASS: ClassId = ClassId(1);
pub const SET_CLASS: ClassId = ClassId(2);
pub struct ClassRef;
impl ClassRef {
    pub fn id(&self) -> ClassId {
        HASH_CLASS
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErr {
    Runtime,
    Frozen,
    Key,
    Argument,
    Type,
    /// What the callback with this number raised.
    Raised(usize),
}
impl MonorubyErr {
    pub fn runtimeerr(_: impl ToString) -> MonorubyErr {
        MonorubyErr::Runtime
    }
    pub fn argumenterr(_: impl ToString) -> MonorubyErr {
        MonorubyErr::Argument
    }
    pub fn typeerr(_: impl ToString) -> MonorubyErr {
        MonorubyErr::Type
    }
    pub fn keyerr_with(_: impl ToString, recv: Value, key: Value) -> MonorubyErr {
        let _ = (recv, key);
        MonorubyErr::Key
    }
}

pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub type RubyMap<K, V> = rubymap::RubyMap<K, V, Executor, Globals, MonorubyErr>;
pub type BytecodePtr = ();

pub struct Store;
pub struct Globals {
    pub store: Store,
}

#[derive(Clone, Copy)]
pub struct BlockHandler;
#[derive(Clone, Copy)]
pub struct ProcData;

pub struct Frame {
    recv: Value,
    args: Vec<Option<Value>>,
    block: bool,
}
#[derive(Clone, Copy)]
pub struct Lfp(*const Frame);
impl Lfp {
    fn frame(&self) -> &'static Frame {
        unsafe { &*self.0 }
    }
    pub fn self_val(&self) -> Value {
        self.frame().recv
    }
    pub fn try_arg(&self, i: usize) -> Option<Value> {
        self.frame().args.get(i).copied().flatten()
    }
    pub fn arg(&self, i: usize) -> Value {
        self.try_arg(i).unwrap()
    }
    pub fn iter(&self) -> impl Iterator<Item = Value> {
        self.frame().args.iter().copied().flatten()
    }
    pub fn block(&self) -> Option<BlockHandler> {
        self.frame().block.then_some(BlockHandler)
    }
    pub fn expect_no_block(&self) -> Result<()> {
        Ok(())
    }
}
pub type Method = fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Result<Value>;

/// The interpreter: what it has put aside, the values of the calls in progress, and what the
/// program's own code does when it is asked.
pub struct Executor {
    pub temp: Vec<Value>,
    pub frames: Vec<Vec<Value>>,
    pub held: Vec<Value>,
    pub hashes: [Value; 2],
    pub script: Script,
    /// A collection at every so-many-th `hash` or `eql?` of a key, if not zero.
    pub key_period: u64,
    pub key_calls: u64,
    pub collections: usize,
}
impl Globals {
    /// Only lists and sets have elements.
    pub fn check_method(&self, _: Value, _: IdentId) -> Option<()> {
        None
    }
}
impl Executor {
    pub fn key_call(&mut self) {
        self.key_calls += 1;
        if self.key_period != 0 && self.key_calls % self.key_period == 0 {
            self.collect();
        }
    }
    /// The program's own code runs.
    fn event(&mut self, what: &str, args: &[Value]) -> Result<Step> {
        self.frames.push(args.to_vec());
        let step = self.script.next(what, &args.iter().map(|v| read(*v)).collect::<Vec<_>>());
        for c in &step.changes {
            self.change(c);
        }
        if step.collect {
            self.collect();
        }
        self.frames.pop();
        if step.raise { Err(MonorubyErr::Raised(self.script.at)) } else { Ok(step) }
    }
    fn change(&mut self, c: &Change) {
        let on = self.hashes[c.on()];
        let _ = match c {
            Change::Store(_, k, v) => {
                let k = make(k);
                self.held.push(k);
                let v = make(v);
                self.held.pop();
                call_in(self, b::index_assign, on, &[k, v], false)
            }
            Change::Delete(_, k) => {
                let k = make(k);
                call_in(self, b::delete, on, &[k], false)
            }
            Change::Shift(_) => call_in(self, b::shift, on, &[], false),
            Change::Clear(_) => call_in(self, b::clear, on, &[], false),
            Change::Replace(_) => call_in(self, b::replace, on, &[self.hashes[1 - c.on()]], false),
            Change::Identity(_) => call_in(self, b::compare_by_identity, on, &[], false),
        };
    }
    /// Frees what is reachable neither from the program nor from the interpreter.
    pub fn collect(&mut self) {
        self.collections += 1;
        let mut alloc = alloc::Allocator::new();
        let roots = self.hashes.iter().chain(&self.temp).chain(&self.held).chain(self.frames.iter().flatten());
        roots.for_each(|v| v.mark(&mut alloc));
        HEAP.with_borrow_mut(|h| {
            h.retain(|p| {
                let keep = alloc.marked.contains(&(*p as u64));
                if !keep {
                    LIVE.with_borrow_mut(|l| l.retain(|_, v| v.id() != *p as u64));
                    drop(unsafe { Box::from_raw(*p) });
                }
                keep
            })
        });
    }
    pub fn get_block_data(&mut self, _: &mut Globals, _: BlockHandler) -> Result<ProcData> {
        Ok(ProcData)
    }
    pub fn invoke_block(&mut self, _: &mut Globals, _: &ProcData, args: &[Value]) -> Result<Value> {
        let step = self.event("block", args)?;
        Ok(make(&step.answer))
    }
    pub fn invoke_block_once(&mut self, g: &mut Globals, _: BlockHandler, args: &[Value]) -> Result<Value> {
        self.invoke_block(g, &ProcData, args)
    }
    pub fn invoke_proc(&mut self, _: &mut Globals, _: &Proc, args: &[Value]) -> Result<Value> {
        let step = self.event("proc", &args[1..])?;
        Ok(make(&step.answer))
    }
    pub fn invoke_method_inner(
        &mut self,
        _: &mut Globals,
        name: IdentId,
        recv: Value,
        args: &[Value],
        _: Option<BlockHandler>,
        _: Option<()>,
    ) -> Result<Value> {
        match name {
            IdentId::DEFAULT => call_in(self, b::default, recv, args, false),
            IdentId::HASH => {
                if recv.obj().is_some() {
                    self.event("hash", &[recv])?;
                }
                Ok(Value::integer(read(recv).digest()))
            }
            IdentId::EQL_ => {
                if recv.id() == args[0].id() {
                    return Ok(Value::bool(true));
                }
                let res = read(recv).eql(&read(args[0]));
                if recv.obj().is_some() {
                    self.event("eql?", &[recv, args[0]])?;
                }
                Ok(Value::bool(res))
            }
            _ => Ok(Value::nil()),
        }
    }
    pub fn invoke_method_if_exists(
        &mut self,
        _: &mut Globals,
        _: IdentId,
        _: Value,
        _: &[Value],
        _: Option<BlockHandler>,
        _: Option<()>,
    ) -> Result<Option<Value>> {
        Ok(None)
    }
    pub fn eq_values_bool(&mut self, _: &mut Globals, a: Value, b: Value) -> Result<bool> {
        if a.id() == b.id() {
            return Ok(true);
        }
        let res = read(a).eql(&read(b));
        if a.obj().is_some() {
            self.event("==", &[a, b])?;
        }
        Ok(res)
    }
    pub fn generate_enumerator_with_size(
        &mut self,
        _: IdentId,
        v: Value,
        _: Vec<Value>,
        _: (),
        _: Option<Value>,
    ) -> Result<Value> {
        Ok(v)
    }
    pub fn with_temp_scope<T>(&mut self, f: impl FnOnce(&mut Executor) -> T) -> T {
        let n = self.temp.len();
        let res = f(self);
        self.temp.truncate(n);
        res
    }
    pub fn generate_enumerator(&mut self, _: IdentId, v: Value, _: Vec<Value>, _: ()) -> Result<Value> {
        Ok(v)
    }
    pub fn temp_array_new(&mut self, _: Option<usize>) {
        self.temp.push(Value::array_from_vec(vec![]));
    }
    pub fn temp_array_push(&mut self, v: Value) {
        let mut list = *self.temp.last().unwrap();
        unsafe { &mut *list.try_rvalue_mut().unwrap().kind.array }.push(v);
    }
    pub fn temp_push(&mut self, v: Value) {
        self.temp.push(v);
    }
    pub fn temp_pop(&mut self) -> Value {
        self.temp.pop().unwrap()
    }
    pub fn temp_len(&self) -> usize {
        self.temp.len()
    }
    pub fn temp_at(&self, i: usize) -> Value {
        self.temp[i]
    }
    pub fn temp_clear(&mut self, n: usize) {
        self.temp.truncate(n);
    }
}

pub fn call_in(vm: &mut Executor, f: Method, recv: Value, args: &[Value], block: bool) -> Result<Value> {
    vm.frames.push(std::iter::once(recv).chain(args.iter().copied()).collect());
    let frame = Frame { recv, args: args.iter().map(|v| Some(*v)).collect(), block };
    let res = f(vm, &mut Globals { store: Store }, Lfp(&frame), ());
    vm.frames.pop();
    res
}

#[derive(Clone, Copy)]
pub struct Array(Value);
impl std::ops::Deref for Array {
    type Target = [Value];
    fn deref(&self) -> &[Value] {
        unsafe { &*self.0.rvalue().kind.array }
    }
}

impl Value {
    pub fn array_from_vec(v: Vec<Value>) -> Value {
        new_rvalue(ObjTy::ARRAY, 0, Kind { array: ManuallyDrop::new(v) })
    }
    pub fn array2(a: Value, b: Value) -> Value {
        Self::array_from_vec(vec![a, b])
    }
    pub fn try_array_ty(&self) -> Option<Array> {
        (self.ty() == Some(ObjTy::ARRAY)).then_some(Array(*self))
    }
    pub fn as_array(&self) -> Array {
        self.try_array_ty().unwrap()
    }
    pub fn hash(map: RubyMap<Value, Value>) -> Value {
        Value::hash_from_inner(HashmapInner::new(map))
    }
    pub fn hash_with_class_and_default(class: ClassId, _: Value) -> Value {
        let mut v = Value::hash(RubyMap::default());
        v.try_rvalue_mut().unwrap().class = class.0;
        v
    }
    pub fn is_kind_of(&self, _: &Store, class: ClassId) -> bool {
        self.try_rvalue().is_some_and(|r| r.class == class.0)
    }
    pub fn expect_array_ty(&self, _: &Globals) -> Result<Array> {
        self.try_array_ty().ok_or(MonorubyErr::Type)
    }
    pub fn string_from_str(s: &str) -> Value {
        Value::string(s.as_bytes())
    }
    pub fn dup(self) -> Value {
        self.dup_hash()
    }
    pub fn is_frozen(&self) -> bool {
        self.try_rvalue().is_none_or(|r| r.frozen.get())
    }
    pub fn set_frozen(&mut self) {
        self.rvalue().frozen.set(true);
    }
    pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
        if self.is_frozen() { Err(MonorubyErr::Frozen) } else { Ok(()) }
    }
    pub fn as_hash_mut(self, store: &Store) -> Result<Hashmap> {
        self.ensure_not_frozen(store)?;
        Ok(self.as_hash())
    }
    pub fn frozen_hash_key(self) -> Value {
        match self.is_rstring_inner() {
            Some(s) if !self.is_frozen() => {
                let mut dup = Value::string(s.as_bytes());
                dup.set_frozen();
                dup
            }
            _ => self,
        }
    }
    pub fn coerce_to_hash(&self, _: &mut Executor, _: &mut Globals) -> Result<Hashmap> {
        self.try_hash_ty().ok_or(MonorubyErr::Type)
    }
    pub fn as_class_id(&self) -> ClassId {
        HASH_CLASS
    }
    pub fn real_class(&self, _: &Store) -> ClassRef {
        ClassRef
    }
    pub fn change_class(&mut self, _: ClassId) {}
    pub fn get_real_class_name(&self, _: &Globals) -> String {
        "Object".into()
    }
    pub fn from_hash_digest(h: u64) -> Value {
        Value::integer((h as i64) >> 1)
    }
}

pub mod rvalue {
    use super::*;
    pub use ruby_traits::{RubyEql, RubyHash};

    #[path = "/repo/monoruby/src/value/rvalue/hash.rs"]
    pub mod hash;
    pub use self::hash::*;

    pub const NIL: u64 = 0x04;
    pub const FALSE: u64 = 0x14;
    pub const TRUE: u64 = 0x1c;

    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    #[repr(transparent)]
    pub struct Value(NonZeroU64);

    impl Default for Value {
        fn default() -> Self {
            Value::nil()
        }
    }

    impl std::fmt::Debug for Value {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.show())
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(transparent)]
    pub struct Proc(Value);

    impl Proc {
        pub fn new(v: Value) -> Proc {
            Proc(v)
        }
        pub fn as_val(self) -> Value {
            self.0
        }
    }
    impl From<Proc> for Value {
        fn from(p: Proc) -> Value {
            p.0
        }
    }
    impl alloc::GC<RValue> for Proc {
        fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
            self.0.mark(alloc)
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct ObjTy(pub u8);
    impl ObjTy {
        pub const OBJECT: ObjTy = ObjTy(1);
        pub const STRING: ObjTy = ObjTy(6);
        pub const ARRAY: ObjTy = ObjTy(7);
        pub const HASH: ObjTy = ObjTy(9);
        pub const PROC: ObjTy = ObjTy(11);
    }

    #[derive(Clone, PartialEq, Eq, Debug, Hash)]
    pub struct RStringInner(Vec<u8>);
    impl RStringInner {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }

    /// An object whose class defines `hash` and `eql?`.
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct Obj {
        pub hash: u64,
        pub group: u64,
    }

    pub union Kind {
        pub hash: ManuallyDrop<HashBody>,
        pub string: ManuallyDrop<RStringInner>,
        pub array: ManuallyDrop<Vec<Value>>,
        pub obj: Obj,
    }

    #[repr(C)]
    pub struct RValue {
        pub flag: u16,
        pub ty: ObjTy,
        pub ty_flags: u8,
        pub class: u32,
        pub var_table: usize,
        pub kind: Kind,
        pub serial: u64,
        pub frozen: std::cell::Cell<bool>,
    }

    pub const RVALUE_OFFSET_KIND: usize = std::mem::offset_of!(RValue, kind);
    pub const RVALUE_OFFSET_TY: usize = std::mem::offset_of!(RValue, ty);

    impl alloc::GCBox for RValue {}

    impl RValue {
        pub fn ty(&self) -> ObjTy {
            self.ty
        }
        pub fn id(&self) -> u64 {
            self as *const RValue as u64
        }
        pub fn ty_flags_ptr(&self) -> std::ptr::NonNull<u8> {
            unsafe { std::ptr::NonNull::new_unchecked((self as *const RValue as *mut u8).add(RVALUE_OFFSET_TY + 1)) }
        }
        pub fn ty_flags(&self) -> u8 {
            unsafe { *self.ty_flags_ptr().as_ref() }
        }
    }

    impl Drop for RValue {
        fn drop(&mut self) {
            unsafe {
                match self.ty {
                    ObjTy::HASH => hash::drop_hash_body(self.ty_flags, &mut self.kind.hash),
                    ObjTy::STRING => ManuallyDrop::drop(&mut self.kind.string),
                    ObjTy::ARRAY => ManuallyDrop::drop(&mut self.kind.array),
                    _ => {}
                }
            }
        }
    }

    thread_local! {
        pub static HEAP: RefCell<Vec<*mut RValue>> = const { RefCell::new(Vec::new()) };
        static HASHING: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        static COMPARING: RefCell<HashSet<(u64, u64)>> = RefCell::new(HashSet::new());
    }

    /// Frees what the last case allocated.
    pub fn reset() {
        HASHING.with_borrow_mut(|h| h.clear());
        COMPARING.with_borrow_mut(|h| h.clear());
        for p in HEAP.take() {
            drop(unsafe { Box::from_raw(p) });
        }
    }

    pub fn new_rvalue(ty: ObjTy, ty_flags: u8, kind: Kind) -> Value {
        HEAP.with_borrow_mut(|h| {
            let p = Box::into_raw(Box::new(RValue { flag: 1, ty, ty_flags, class: 0, var_table: 0, kind, serial: 0, frozen: std::cell::Cell::new(false) }));
            h.push(p);
            Value(NonZeroU64::new(p as u64).unwrap())
        })
    }

    impl Value {
        pub fn from_bits(b: u64) -> Value {
            Value(NonZeroU64::new(b).unwrap())
        }
        pub fn nil() -> Value {
            Self::from_bits(NIL)
        }
        pub fn bool(b: bool) -> Value {
            Self::from_bits(if b { TRUE } else { FALSE })
        }
        pub fn integer(i: i64) -> Value {
            Self::from_bits((i << 1) as u64 | 1)
        }
        pub fn float(i: u64) -> Value {
            Self::from_bits(i << 3 | 2)
        }
        pub fn symbol(i: u32) -> Value {
            Self::from_bits((i as u64) << 32 | 0x0c)
        }
        pub fn string(s: &[u8]) -> Value {
            new_rvalue(ObjTy::STRING, 0, Kind { string: ManuallyDrop::new(RStringInner(s.to_vec())) })
        }
        pub fn object(o: Obj) -> Value {
            new_rvalue(ObjTy::OBJECT, 0, Kind { obj: o })
        }
        pub fn proc() -> Proc {
            Proc(new_rvalue(ObjTy::PROC, 0, Kind { obj: Obj { hash: 0, group: 0 } }))
        }
        pub fn hash_from_inner(inner: HashmapInner) -> Value {
            let (flags, body) = inner.into_parts();
            new_rvalue(ObjTy::HASH, flags, Kind { hash: ManuallyDrop::new(body) })
        }
        /// `dup` as the object representation does it.
        pub fn dup_hash(self) -> Value {
            let rv = self.try_rvalue().unwrap();
            let body = self.as_hashmap_inner().clone_body();
            new_rvalue(ObjTy::HASH, hash::sanitize_dup_flags(rv.ty_flags()), Kind { hash: ManuallyDrop::new(body) })
        }
        pub fn id(&self) -> u64 {
            self.0.get()
        }
        pub fn is_nil(&self) -> bool {
            self.id() == NIL
        }
        pub fn as_bool(&self) -> bool {
            self.id() & !0x10 != NIL
        }
        pub fn is_packed_value(&self) -> bool {
            self.id() & 7 != 0
        }
        pub fn is_fixnum(&self) -> bool {
            self.id() & 1 == 1
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            self.is_fixnum().then(|| (self.id() as i64) >> 1)
        }
        pub fn is_flonum(&self) -> bool {
            self.id() & 3 == 2
        }
        pub fn is_symbol(&self) -> bool {
            self.id() & 0xff == 0x0c
        }
        pub fn try_symbol(&self) -> Option<IdentId> {
            self.is_symbol().then(|| IdentId((self.id() >> 32) as u32))
        }
        pub fn try_rvalue(&self) -> Option<&RValue> {
            if self.is_packed_value() { None } else { Some(unsafe { &*(self.id() as *const RValue) }) }
        }
        pub fn try_rvalue_mut(&mut self) -> Option<&mut RValue> {
            if self.is_packed_value() { None } else { Some(unsafe { &mut *(self.id() as *mut RValue) }) }
        }
        pub fn rvalue(&self) -> &RValue {
            self.try_rvalue().unwrap()
        }
        pub fn ty(&self) -> Option<ObjTy> {
            self.try_rvalue().map(|r| r.ty)
        }
        pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
            let rv = self.try_rvalue()?;
            if rv.ty == ObjTy::STRING { Some(unsafe { &rv.kind.string }) } else { None }
        }
        pub fn is_str(&self) -> Option<&str> {
            self.is_rstring_inner().and_then(|s| std::str::from_utf8(s.as_bytes()).ok())
        }
        pub fn obj(&self) -> Option<Obj> {
            let rv = self.try_rvalue()?;
            if rv.ty == ObjTy::OBJECT { Some(unsafe { rv.kind.obj }) } else { None }
        }
        pub fn try_hash_ty(&self) -> Option<Hashmap> {
            (self.ty() == Some(ObjTy::HASH)).then(|| Hashmap::new_unchecked(*self))
        }
        pub fn as_hash(self) -> Hashmap {
            Hashmap::new(self)
        }
        pub fn as_hashmap_inner(&self) -> HashRef<'_> {
            unsafe { HashRef::from_rvalue(self.rvalue()) }
        }
        pub fn as_hashmap_inner_mut(&mut self) -> HashRefMut<'_> {
            unsafe { HashRefMut::from_rvalue(self.try_rvalue_mut().unwrap()) }
        }
        pub fn write_barrier(&mut self, child: Value) {
            let _ = child;
        }
        pub fn write_barrier_bulk(&mut self) {

        }
        pub fn calculate_hash(self, e: &mut Executor, g: &mut Globals) -> Result<u64> {
            use std::hash::Hasher;
            let mut s = crate::value::seeded_hasher();
            self.ruby_hash(&mut s, e, g)?;
            Ok(s.finish())
        }
        pub fn ruby_hash_packed<H: std::hash::Hasher>(&self, state: &mut H) {
            use std::hash::Hash;
            self.0.hash(state)
        }
        pub fn debug(&self, _store: &Store) -> String {
            self.show()
        }
        pub fn inspect_inner(&self, store: &Store, set: &mut HashSet<u64>) -> String {
            if !self.is_packed_value() && !set.insert(self.id()) {
                return "...".to_string();
            }
            let s = match self.try_hash_ty() {
                Some(h) => h.inspect_inner(store, set),
                None => self.show(),
            };
            set.remove(&self.id());
            s
        }
        pub fn inspect(&self, store: &Store) -> String {
            self.inspect_inner(store, &mut HashSet::new())
        }
        pub fn show(&self) -> String {
            if self.is_nil() {
                return "nil".into();
            } else if self.id() == TRUE {
                return "true".into();
            } else if self.id() == FALSE {
                return "false".into();
            } else if let Some(i) = self.try_fixnum() {
                return format!("{i}");
            } else if let Some(s) = self.try_symbol() {
                return format!(":{s}");
            } else if self.is_packed_value() {
                return format!("{}.5", self.id() >> 3);
            }
            let rv = self.rvalue();
            if let Some(s) = self.is_rstring_inner() {
                format!("{:?}@{}", String::from_utf8_lossy(s.as_bytes()), rv.serial)
            } else if let Some(o) = self.obj() {
                format!("obj{}@{}", o.group, rv.serial)
            } else if self.ty() == Some(ObjTy::PROC) {
                format!("proc@{}", rv.serial)
            } else {
                format!("hash@{}", rv.serial)
            }
        }
    }

    impl alloc::GC<RValue> for Value {
        fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
            if !self.is_packed_value() && alloc.marked.insert(self.id()) {
                match self.ty() {
                    Some(ObjTy::HASH) => self.as_hashmap_inner().mark(alloc),
                    Some(ObjTy::ARRAY) => unsafe { &*self.rvalue().kind.array }.iter().for_each(|v| v.mark(alloc)),
                    _ => {}
                }
            }
        }
    }

    impl RubyHash<Executor, Globals, MonorubyErr> for Value {
        fn ruby_hash<H: std::hash::Hasher>(&self, state: &mut H, e: &mut Executor, g: &mut Globals) -> Result<()> {
            use std::hash::Hash;
            if self.is_packed_value() {
                self.ruby_hash_packed(state);
            } else if let Some(s) = self.is_rstring_inner() {
                s.hash(state);
            } else if let Some(o) = self.obj() {
                e.key_call();
                o.hash.hash(state);
            } else if self.ty() == Some(ObjTy::HASH) {
                let id = self.id();
                if HASHING.with_borrow_mut(|h| !h.insert(id)) {
                    0u64.hash(state);
                    return Ok(());
                }
                let r = self.as_hashmap_inner().ruby_hash(state, e, g);
                HASHING.with_borrow_mut(|h| h.remove(&id));
                r?;
            } else {
                self.id().hash(state);
            }
            Ok(())
        }
    }

    impl RubyEql<Executor, Globals, MonorubyErr> for Value {
        fn eql(&self, other: &Self, e: &mut Executor, g: &mut Globals) -> Result<bool> {
            if self.id() == other.id() {
                return Ok(true);
            }
            if self.is_packed_value() || other.is_packed_value() {
                return Ok(false);
            }
            if let (Some(a), Some(b)) = (self.is_rstring_inner(), other.is_rstring_inner()) {
                return Ok(a == b);
            }
            if self.ty() == Some(ObjTy::HASH) && other.ty() == Some(ObjTy::HASH) {
                let pair = (self.id(), other.id());
                if COMPARING.with_borrow_mut(|c| !c.insert(pair)) {
                    return Ok(true);
                }
                let r = self.as_hashmap_inner().eql(&other.as_hashmap_inner(), e, g);
                COMPARING.with_borrow_mut(|c| c.remove(&pair));
                return r;
            }
            if let Some(a) = self.obj() {
                e.key_call();
                return Ok(other.obj().is_some_and(|b| a.group == b.group));
            }
            // The builtin `eql?` of everything else: no value of another kind.
            Ok(false)
        }
    }
}

use alloc::GC;
use rvalue::*;

mod builtins {
    use super::*;
    use monoruby_attr::monoruby_builtin;
    pub mod hash {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/hash_methods.rs"));
    }
    pub mod set {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/set_methods.rs"));
    }
}
#[path = "sets.rs"]
mod sets;
use builtins::hash as b;

// ---- what hashes hold ---------------------------------------------------------------------------

/// A key or value as the reference sees it; `n` tells objects apart.
#[derive(Clone, PartialEq, Debug)]
pub enum M {
    Nil,
    T,
    F,
    Int(i64),
    Sym(u32),
    Str { n: u64, text: u8, frozen: bool },
    Obj { n: u64, group: u64 },
}
impl M {
    fn eql(&self, o: &M) -> bool {
        match (self, o) {
            (M::Str { text: a, .. }, M::Str { text: b, .. }) => a == b,
            (M::Obj { group: a, .. }, M::Obj { group: b, .. }) => a == b,
            _ => self == o,
        }
    }
    fn truthy(&self) -> bool {
        !matches!(self, M::Nil | M::F)
    }
    fn digest(&self) -> i64 {
        match self {
            M::Nil => 1,
            M::T => 2,
            M::F => 3,
            M::Int(i) => i * 37 + 11,
            M::Sym(i) => *i as i64 * 101 + 17,
            M::Str { text, .. } => *text as i64 * 7919,
            M::Obj { group, .. } => (*group % 2) as i64 * 65537,
        }
    }
    /// What a hash that compares with `eql?` keeps as its key.
    fn as_key(&self) -> M {
        match self {
            M::Str { text, frozen: false, .. } => M::Str { n: 0, text: *text, frozen: true },
            m => m.clone(),
        }
    }
}

thread_local! {
    /// The objects that exist, by number.
    static LIVE: RefCell<BTreeMap<u64, Value>> = const { RefCell::new(BTreeMap::new()) };
}

fn make(m: &M) -> Value {
    let (n, fresh): (u64, &dyn Fn() -> Value) = match m {
        M::Nil => return Value::nil(),
        M::T => return Value::bool(true),
        M::F => return Value::bool(false),
        M::Int(i) => return Value::integer(*i),
        M::Sym(i) => return Value::symbol(*i),
        M::Str { n, text, .. } => (*n, &|| Value::string(&[*text])),
        M::Obj { n, group } => (*n, &move || Value::object(Obj { hash: *group % 2, group: *group })),
    };
    if let Some(v) = LIVE.with_borrow(|l| l.get(&n).copied()) {
        return v;
    }
    let mut v = fresh();
    v.try_rvalue_mut().unwrap().serial = n;
    if let M::Str { frozen: true, .. } = m {
        v.set_frozen();
    }
    LIVE.with_borrow_mut(|l| l.insert(n, v));
    v
}

fn read(v: Value) -> M {
    if v.is_nil() {
        M::Nil
    } else if v.id() == TRUE {
        M::T
    } else if v.id() == FALSE {
        M::F
    } else if let Some(i) = v.try_fixnum() {
        M::Int(i)
    } else if v.is_symbol() {
        M::Sym((v.id() >> 32) as u32)
    } else if let Some(s) = v.is_rstring_inner() {
        M::Str { n: v.rvalue().serial, text: s.as_bytes()[0], frozen: v.is_frozen() }
    } else if let Some(o) = v.obj() {
        M::Obj { n: v.rvalue().serial, group: o.group }
    } else {
        panic!("a value of no known kind: {:x}", v.id())
    }
}

// ---- the program's own code ---------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Change {
    Store(usize, M, M),
    Delete(usize, M),
    Shift(usize),
    Clear(usize),
    Replace(usize),
    Identity(usize),
}
impl Change {
    fn on(&self) -> usize {
        match self {
            Change::Store(w, ..) | Change::Delete(w, _) => *w,
            Change::Shift(w) | Change::Clear(w) | Change::Replace(w) | Change::Identity(w) => *w,
        }
    }
}

/// What one piece of the program's code does when asked.
#[derive(Clone, Debug)]
pub struct Step {
    changes: Vec<Change>,
    collect: bool,
    raise: bool,
    answer: M,
}
#[derive(Clone, Default)]
pub struct Script {
    steps: Vec<Step>,
    at: usize,
    log: Vec<(String, Vec<M>)>,
}
impl Script {
    fn next(&mut self, what: &str, args: &[M]) -> Step {
        self.log.push((what.into(), args.to_vec()));
        self.at += 1;
        let quiet = Step { changes: vec![], collect: false, raise: false, answer: if self.at % 3 == 0 { M::F } else { M::T } };
        self.steps.get(self.at - 1).cloned().unwrap_or(quiet)
    }
}

// ---- the reference ------------------------------------------------------------------------------

type E = MonorubyErr;

/// Pairs in the order of their insertion; one taken out while somebody walks leaves its place empty.
#[derive(Clone, Default)]
struct H {
    slots: Vec<Option<(M, M)>>,
    walks: usize,
    ident: bool,
    frozen: bool,
    default: M0,
}
#[derive(Clone, PartialEq, Debug, Default)]
enum M0 {
    #[default]
    None,
    Value(M),
    Proc,
}
impl H {
    fn live(&self) -> Vec<(M, M)> {
        self.slots.iter().flatten().cloned().collect()
    }
    fn len(&self) -> usize {
        self.slots.iter().flatten().count()
    }
    fn pos(&self, k: &M) -> Option<usize> {
        self.slots.iter().position(|s| s.as_ref().is_some_and(|(x, _)| if self.ident { x == k } else { x.eql(k) }))
    }
    fn get(&self, k: &M) -> Option<M> {
        self.pos(k).map(|i| self.slots[i].as_ref().unwrap().1.clone())
    }
    fn settle(&mut self) {
        if self.walks == 0 {
            self.slots.retain(|s| s.is_some());
        }
    }
    fn store(&mut self, k: &M, v: &M) -> Result<()> {
        if self.frozen {
            return Err(E::Frozen);
        }
        self.settle();
        match self.pos(k) {
            Some(i) => self.slots[i].as_mut().unwrap().1 = v.clone(),
            None if self.walks > 0 => return Err(E::Runtime),
            None => self.slots.push(Some((if self.ident { k.clone() } else { k.as_key() }, v.clone()))),
        }
        Ok(())
    }
    fn take(&mut self, i: usize) -> (M, M) {
        let pair = self.slots[i].take().unwrap();
        self.settle();
        pair
    }
    fn delete(&mut self, k: &M) -> Result<Option<M>> {
        if self.frozen {
            return Err(E::Frozen);
        }
        Ok(self.pos(k).map(|i| self.take(i).1))
    }
    fn shift(&mut self) -> Result<Option<(M, M)>> {
        if self.frozen {
            return Err(E::Frozen);
        }
        Ok(self.slots.iter().position(|s| s.is_some()).map(|i| self.take(i)))
    }
}

/// The two hashes of a case - which may be one - and the program's code.
#[derive(Clone)]
struct St {
    h: Vec<H>,
    ix: [usize; 2],
    script: Script,
    /// Something was done whose outcome is left open.
    open: bool,
}
impl St {
    fn a(&mut self) -> &mut H {
        let i = self.ix[0];
        &mut self.h[i]
    }
    fn b(&mut self) -> &mut H {
        let i = self.ix[1];
        &mut self.h[i]
    }
    fn change(&mut self, c: &Change) {
        let other = self.h[self.ix[1 - c.on()]].clone();
        let one = self.ix[0] == self.ix[1];
        let on = self.ix[c.on()];
        let h = &mut self.h[on];
        match c {
            Change::Store(_, k, v) => drop(h.store(k, v)),
            Change::Delete(_, k) => drop(h.delete(k)),
            Change::Shift(_) => drop(h.shift()),
            Change::Clear(_) => {
                if h.walks > 0 && !h.frozen {
                    self.open = true;
                } else if !h.frozen {
                    h.slots.clear();
                }
            }
            Change::Replace(_) => {
                if !h.frozen && h.walks == 0 && !one {
                    h.slots = other.live().into_iter().map(Some).collect();
                    h.ident = other.ident;
                    h.default = other.default;
                }
            }
            Change::Identity(_) => {
                if !h.frozen && h.walks == 0 {
                    h.settle();
                    h.ident = true;
                }
            }
        }
    }
    fn event(&mut self, what: &str, args: &[M]) -> Result<M> {
        let step = self.script.next(what, args);
        for c in &step.changes {
            self.change(c);
        }
        if step.raise { Err(E::Raised(self.script.at)) } else { Ok(step.answer) }
    }
    fn compare(&mut self, what: &str, a: &M, b: &M) -> Result<bool> {
        if a == b {
            return Ok(true);
        }
        if let M::Obj { .. } = a {
            self.event(what, &[a.clone(), b.clone()])?;
        }
        Ok(a.eql(b))
    }
    /// Visits what is there when its turn comes, until told to stop.
    fn walk(&mut self, on: usize, f: &mut dyn FnMut(&mut St, usize, M, M) -> Result<bool>) -> Result<bool> {
        let on = self.ix[on];
        self.h[on].settle();
        self.h[on].walks += 1;
        let mut res = Ok(true);
        let mut i = 0;
        while i < self.h[on].slots.len() {
            if let Some((k, v)) = self.h[on].slots[i].clone() {
                res = f(self, i, k, v);
                if !matches!(res, Ok(true)) {
                    break;
                }
            }
            i += 1;
        }
        self.h[on].walks -= 1;
        self.h[on].settle();
        res
    }
    fn miss(&mut self, k: &M) -> Result<M> {
        match self.a().default.clone() {
            M0::None => Ok(M::Nil),
            M0::Value(m) => Ok(m),
            M0::Proc => self.event("proc", &[k.clone()]),
        }
    }
    fn subset(&mut self, sub: usize, sup: usize) -> Result<bool> {
        self.walk(sub, &mut |st, _, k, v| {
            let sup = st.ix[sup];
            let Some(w) = st.h[sup].get(&k) else { return Ok(false) };
            st.compare("==", &v, &w)
        })
    }
}

#[derive(Clone, PartialEq, Debug)]
enum Out {
    Val(M),
    Arr(Vec<M>),
    Hash { pairs: Vec<(M, M)>, ident: bool, default: M0 },
    Same,
    Digest,
}
impl H {
    fn out(&self) -> Out {
        Out::Hash { pairs: self.live(), ident: self.ident, default: self.default.clone() }
    }
}
fn bool_(b: bool) -> Out {
    Out::Val(if b { M::T } else { M::F })
}

#[derive(Clone, Debug)]
enum Op {
    Size,
    Empty,
    Keys,
    Values,
    Include(M),
    Index(M),
    Fetch(M, Option<M>, bool),
    ValuesAt(Vec<M>),
    Default(Option<M>),
    Key(M),
    Assoc(M),
    Rassoc(M),
    Invert,
    Select,
    Reject,
    SelectB,
    RejectB,
    KeepIf,
    DeleteIf,
    Merge(Vec<usize>, bool),
    MergeB(Vec<usize>, bool),
    Eq,
    Eql,
    Digest,
    Lt,
    Le,
    Gt,
    Ge,
    Store(M, M),
    Delete(M, bool),
    Shift,
    Clear,
    Replace,
    Clone,
    Identity,
    IsIdentity,
    OfHash,
    OfList(Vec<(M, M)>),
    OfPairs(Vec<(M, M)>),
}

fn expect(st: &mut St, op: &Op) -> Result<Out> {
    let filter = |st: &mut St, drop_if: bool| -> Result<Out> {
        let mut res = H { ident: st.a().ident, ..H::default() };
        for (k, v) in st.a().live() {
            if st.event("block", &[k.clone(), v.clone()])?.truthy() != drop_if {
                res.store(&k, &v)?;
            }
        }
        Ok(res.out())
    };
    let filter_in_place = |st: &mut St, drop_if: bool, nil: bool| -> Result<Out> {
        if st.a().frozen {
            return Err(E::Frozen);
        }
        let before = st.a().len();
        st.walk(0, &mut |st, i, k, v| {
            if st.event("block", &[k, v])?.truthy() == drop_if && st.a().slots[i].is_some() {
                st.a().take(i);
            }
            Ok(true)
        })?;
        Ok(if nil && st.a().len() == before { Out::Val(M::Nil) } else { Out::Same })
    };
    Ok(match op {
        Op::Size => Out::Val(M::Int(st.a().len() as i64)),
        Op::Empty => bool_(st.a().len() == 0),
        Op::Keys => Out::Arr(st.a().live().into_iter().map(|p| p.0).collect()),
        Op::Values => Out::Arr(st.a().live().into_iter().map(|p| p.1).collect()),
        Op::Include(k) => bool_(st.a().get(k).is_some()),
        Op::Index(k) => match st.a().get(k) {
            Some(v) => Out::Val(v),
            None => Out::Val(st.miss(k)?),
        },
        Op::Fetch(k, d, block) => match (st.a().get(k), d) {
            (Some(v), _) => Out::Val(v),
            (None, _) if *block => Out::Val(st.event("block", &[k.clone()])?),
            (None, Some(d)) => Out::Val(d.clone()),
            _ => return Err(E::Key),
        },
        Op::ValuesAt(ks) => {
            let mut res = vec![];
            for k in ks {
                res.push(match st.a().get(k) {
                    Some(v) => v,
                    None => st.miss(k)?,
                });
            }
            Out::Arr(res)
        }
        Op::Default(Some(k)) => Out::Val(st.miss(k)?),
        Op::Default(None) => Out::Val(match st.a().default.clone() {
            M0::Value(m) => m,
            _ => M::Nil,
        }),
        Op::Key(x) => {
            let mut res = Out::Val(M::Nil);
            st.walk(0, &mut |st, _, k, v| {
                let hit = st.compare("==", &v, x)?;
                if hit {
                    res = Out::Val(k);
                }
                Ok(!hit)
            })?;
            res
        }
        Op::Assoc(x) | Op::Rassoc(x) => {
            let by_key = matches!(op, Op::Assoc(_));
            let mut res = Out::Val(M::Nil);
            st.walk(0, &mut |st, _, k, v| {
                let hit = st.compare("==", x, if by_key { &k } else { &v })?;
                if hit {
                    res = Out::Arr(vec![k, v]);
                }
                Ok(!hit)
            })?;
            res
        }
        Op::Invert => {
            let mut res = H::default();
            for (k, v) in st.a().live() {
                res.store(&v, &k)?;
            }
            res.out()
        }
        Op::Select => filter(st, false)?,
        Op::Reject => filter(st, true)?,
        Op::SelectB => filter_in_place(st, false, true)?,
        Op::KeepIf => filter_in_place(st, false, false)?,
        Op::RejectB => filter_in_place(st, true, true)?,
        Op::DeleteIf => filter_in_place(st, true, false)?,
        Op::Merge(others, block) => {
            let mut res = st.a().clone();
            res.frozen = false;
            res.walks = 0;
            res.settle();
            for o in others {
                st.walk(*o, &mut |st, _, k, v| {
                    let v = match res.get(&k) {
                        Some(old) if *block => st.event("block", &[k.clone(), old, v])?,
                        _ => v,
                    };
                    res.store(&k, &v)?;
                    Ok(true)
                })?;
            }
            res.out()
        }
        Op::MergeB(others, block) => {
            if st.a().frozen {
                return Err(E::Frozen);
            }
            for o in others {
                st.walk(*o, &mut |st, _, k, v| {
                    let v = match st.a().get(&k) {
                        Some(old) if *block => {
                            let v = st.event("block", &[k.clone(), old, v])?;
                            // Nothing is said about a pair that goes away while its new value is asked for.
                            st.open |= st.a().get(&k).is_none();
                            v
                        }
                        _ => v,
                    };
                    st.a().store(&k, &v)?;
                    Ok(true)
                })?;
            }
            Out::Same
        }
        Op::Eq | Op::Eql => {
            let (a, b) = (st.a().clone(), st.b().clone());
            if a.len() != b.len() || a.len() != 0 && a.ident != b.ident {
                return Ok(bool_(false));
            }
            let what = if matches!(op, Op::Eq) { "==" } else { "eql?" };
            bool_(st.walk(0, &mut |st, _, k, v| {
                let Some(w) = st.b().get(&k) else { return Ok(false) };
                st.compare(what, &v, &w)
            })?)
        }
        Op::Digest => {
            st.walk(0, &mut |st, _, k, v| {
                for x in [k, v] {
                    if let M::Obj { .. } = x {
                        st.event("hash", &[x])?;
                    }
                }
                Ok(true)
            })?;
            Out::Digest
        }
        Op::Lt => bool_(st.a().len() < st.b().len() && st.subset(0, 1)?),
        Op::Le => bool_(st.a().len() <= st.b().len() && st.subset(0, 1)?),
        Op::Gt => bool_(st.a().len() > st.b().len() && st.subset(1, 0)?),
        Op::Ge => bool_(st.a().len() >= st.b().len() && st.subset(1, 0)?),
        Op::Store(k, v) => {
            st.a().store(k, v)?;
            Out::Val(v.clone())
        }
        Op::Delete(k, block) => match st.a().delete(k)? {
            Some(v) => Out::Val(v),
            None if *block => Out::Val(st.event("block", &[k.clone()])?),
            None => Out::Val(M::Nil),
        },
        Op::Shift => match st.a().shift()? {
            Some((k, v)) => Out::Arr(vec![k, v]),
            None => Out::Val(M::Nil),
        },
        Op::Clear | Op::Replace | Op::Identity => {
            if st.a().frozen {
                return Err(E::Frozen);
            }
            st.change(&match op {
                Op::Clear => Change::Clear(0),
                Op::Replace => Change::Replace(0),
                _ => Change::Identity(0),
            });
            Out::Same
        }
        Op::Clone => st.a().out(),
        Op::IsIdentity => bool_(st.a().ident),
        Op::OfHash => {
            let mut res = H::default();
            for (k, v) in st.a().live() {
                res.store(&k, &v)?;
            }
            res.out()
        }
        Op::OfList(l) | Op::OfPairs(l) => {
            let mut res = H::default();
            for (k, v) in l {
                res.store(k, v)?;
            }
            res.out()
        }
    })
}

// ---- the real thing -----------------------------------------------------------------------------

fn perform(vm: &mut Executor, op: &Op) -> Result<Value> {
    let [a, other] = vm.hashes;
    let list = |vm: &mut Executor, l: &[&M]| {
        let n = vm.held.len();
        for m in l {
            let v = make(m);
            vm.held.push(v);
        }
        Value::array_from_vec(vm.held.split_off(n))
    };
    let (f, args, block): (Method, Vec<Value>, bool) = match op {
        Op::Size => (b::size, vec![], false),
        Op::Empty => (b::empty_, vec![], false),
        Op::Keys => (b::keys, vec![], false),
        Op::Values => (b::values, vec![], false),
        Op::Include(k) => (b::include, vec![make(k)], false),
        Op::Index(k) => (b::index, vec![make(k)], false),
        Op::Fetch(k, d, block) => (b::fetch, std::iter::once(k).chain(d).map(make).collect(), *block),
        Op::ValuesAt(ks) => (b::values_at, vec![list(vm, &ks.iter().collect::<Vec<_>>())], false),
        Op::Default(k) => (b::default, k.iter().map(make).collect(), false),
        Op::Key(m) => (b::key, vec![make(m)], false),
        Op::Assoc(m) => (b::assoc, vec![make(m)], false),
        Op::Rassoc(m) => (b::rassoc, vec![make(m)], false),
        Op::Invert => (b::invert, vec![], false),
        Op::Select => (b::select, vec![], true),
        Op::Reject => (b::reject, vec![], true),
        Op::SelectB => (b::select_, vec![], true),
        Op::RejectB => (b::reject_, vec![], true),
        Op::KeepIf => (b::keep_if, vec![], true),
        Op::DeleteIf => (b::delete_if, vec![], true),
        Op::Merge(o, block) => (b::merge, vec![Value::array_from_vec(o.iter().map(|i| vm.hashes[*i]).collect())], *block),
        Op::MergeB(o, block) => (b::merge_, vec![Value::array_from_vec(o.iter().map(|i| vm.hashes[*i]).collect())], *block),
        Op::Eq => (b::eq, vec![other], false),
        Op::Eql => (b::eql, vec![other], false),
        Op::Digest => (b::hash, vec![], false),
        Op::Lt => (b::lt, vec![other], false),
        Op::Le => (b::le, vec![other], false),
        Op::Gt => (b::gt, vec![other], false),
        Op::Ge => (b::ge, vec![other], false),
        Op::Store(k, v) => (b::index_assign, vec![make(k), make(v)], false),
        Op::Delete(k, block) => (b::delete, vec![make(k)], *block),
        Op::Shift => (b::shift, vec![], false),
        Op::Clear => (b::clear, vec![], false),
        Op::Replace => (b::replace, vec![other], false),
        Op::Clone => (b::clone, vec![], false),
        Op::Identity => (b::compare_by_identity, vec![], false),
        Op::IsIdentity => (b::compare_by_identity_, vec![], false),
        Op::OfHash => (b::hash_bracket, vec![Value::array_from_vec(vec![a])], false),
        Op::OfList(l) => {
            let l: Vec<&M> = l.iter().flat_map(|(k, v)| [k, v]).collect();
            (b::hash_bracket, vec![list(vm, &l)], false)
        }
        Op::OfPairs(l) => {
            // a pair without a second element stands for one with nil
            let pairs = l.iter().map(|(k, v)| if let M::Nil = v { list(vm, &[k]) } else { list(vm, &[k, v]) }).collect();
            let pairs = Value::array_from_vec(pairs);
            (b::hash_bracket, vec![Value::array_from_vec(vec![pairs])], false)
        }
    };
    call_in(vm, f, a, &args, block)
}

fn pairs(v: Value) -> Vec<(M, M)> {
    v.as_hash().iter().map(|(k, v)| (read(k), read(v))).collect()
}
fn default_of(v: Value) -> M0 {
    let h = v.as_hash();
    match h.defalut_value() {
        _ if h.defalut_proc().is_some() => M0::Proc,
        Some(v) if !v.is_nil() => M0::Value(read(v)),
        _ => M0::None,
    }
}
fn read_out(v: Value, a: Value, op: &Op) -> Out {
    if v.id() == a.id() {
        Out::Same
    } else if let Op::Digest = op {
        Out::Digest
    } else if v.try_hash_ty().is_some() {
        Out::Hash { pairs: pairs(v), ident: v.as_hash().is_compare_by_identity(), default: default_of(v) }
    } else if let Some(l) = v.try_array_ty() {
        Out::Arr(l.iter().map(|v| read(*v)).collect())
    } else {
        Out::Val(read(v))
    }
}

// ---- generation ---------------------------------------------------------------------------------

/// What the keys and values of a case are drawn from.
struct Pool {
    all: Vec<M>,
    /// No strings, so that hashes may compare by identity.
    ident: bool,
}
impl Pool {
    fn new(src: &mut Src) -> Pool {
        let ident = src.chance(1, 4);
        let plain = src.chance(1, 4);
        let mut all = vec![M::Nil, M::T, M::F];
        all.extend((0..6).map(M::Int));
        all.extend((0..4).map(M::Sym));
        let mut n = 0;
        if !plain {
            for _ in 0..16 {
                n += 1;
                all.push(M::Obj { n, group: src.below(8) });
            }
            if !ident {
                for _ in 0..6 {
                    n += 1;
                    all.push(M::Str { n, text: b'a' + src.below(4) as u8, frozen: src.bool() });
                }
            }
        }
        Pool { all, ident }
    }
    fn any(&self, src: &mut Src) -> M {
        self.all[src.below(self.all.len() as u64) as usize].clone()
    }
    /// Mostly something that is a key of the hash.
    fn key(&self, src: &mut Src, h: &H) -> M {
        let live = h.live();
        if !live.is_empty() && src.chance(2, 3) {
            let k = live[src.below(live.len() as u64) as usize].0.clone();
            if !matches!(k, M::Str { n: 0, .. }) {
                return k;
            }
        }
        self.any(src)
    }
    fn hash(&self, src: &mut Src, frozen: bool) -> H {
        let mut h = H { ident: self.ident && src.chance(2, 3), ..H::default() };
        let n = src.pick(&[0usize, 1, 2, 3, 3, 4, 5, 7, 9, 12, 20]);
        for _ in 0..n {
            let (k, v) = (self.any(src), self.any(src));
            let _ = h.store(&k, &v);
        }
        if src.chance(1, 6) {
            h.default = if src.bool() { M0::Proc } else { M0::Value(self.any(src)) };
            if let M0::Value(M::Nil) = h.default {
                h.default = M0::None;
            }
        }
        h.frozen = frozen;
        h
    }
    fn list(&self, src: &mut Src) -> Vec<(M, M)> {
        (0..src.below(6)).map(|_| (self.any(src), self.any(src))).collect()
    }
}

fn any_op(src: &mut Src, p: &Pool, h: &H, asking: bool) -> Op {
    let others = |src: &mut Src| (0..src.range(0, 3)).map(|_| src.weighted(&[1, 4])).collect::<Vec<_>>();
    if asking {
        return match src.below(18) {
            0 => Op::Key(p.any(src)),
            1 => Op::Assoc(p.any(src)),
            2 => Op::Rassoc(p.any(src)),
            3 => Op::Select,
            4 => Op::Reject,
            5 => Op::SelectB,
            6 => Op::RejectB,
            7 => Op::KeepIf,
            8 => Op::DeleteIf,
            9 | 10 => Op::Merge(others(src), true),
            11 | 12 => Op::MergeB(others(src), true),
            13 => Op::Eq,
            14 => Op::Eql,
            15 => Op::Digest,
            16 => [Op::Lt, Op::Le, Op::Gt, Op::Ge][src.below(4) as usize].clone(),
            _ => match src.below(4) {
                0 => Op::ValuesAt((0..src.below(6)).map(|_| p.key(src, h)).collect()),
                1 => Op::Index(p.any(src)),
                2 => Op::Fetch(p.any(src), None, true),
                _ => Op::Delete(p.any(src), true),
            },
        };
    }
    match src.below(22) {
        0 => [Op::Size, Op::Empty, Op::Keys, Op::Values, Op::IsIdentity][src.below(5) as usize].clone(),
        1 => Op::Include(p.key(src, h)),
        2 => Op::Index(p.key(src, h)),
        3 => {
            let k = p.key(src, h);
            let d = src.bool().then(|| p.any(src));
            Op::Fetch(k, d, src.bool())
        }
        4 => Op::ValuesAt((0..src.below(6)).map(|_| p.key(src, h)).collect()),
        5 => Op::Default(src.bool().then(|| p.any(src))),
        6 => Op::Invert,
        7..=9 => {
            let k = p.key(src, h);
            Op::Store(k, p.any(src))
        }
        10 | 11 => {
            let k = p.key(src, h);
            Op::Delete(k, src.bool())
        }
        12 => Op::Shift,
        13 => [Op::Clear, Op::Replace, Op::Clone][src.below(3) as usize].clone(),
        14 if p.ident && !(h.frozen && h.ident) => Op::Identity,
        15 => Op::OfHash,
        16 => Op::OfList(p.list(src)),
        17 => Op::OfPairs(p.list(src)),
        18 => {
            let o = others(src);
            let block = src.bool();
            if src.bool() { Op::Merge(o, block) } else { Op::MergeB(o, block) }
        }
        _ => any_op(src, p, h, true),
    }
}

/// The two hashes as they are at the start.
fn start(src: &mut Src, p: &Pool, frozen: bool) -> (St, Executor) {
    let frozen = frozen && src.chance(1, 6);
    let a = p.hash(src, frozen);
    let mut h = vec![a];
    let mut ix = [0, 0];
    if !src.chance(1, 6) {
        ix[1] = 1;
        // Often nearly the same.
        let b = if src.chance(1, 2) {
            let mut l = h[0].live();
            if src.bool() {
                l.reverse();
            }
            let mut b = H { ident: h[0].ident, ..H::default() };
            for (k, v) in &l {
                // Another object that is as good.
                let alike = |m: &M| match m {
                    M::Obj { group, .. } if !h[0].ident => p.all.iter().rev().find(|x| matches!(x, M::Obj { group: g, .. } if g == group)).unwrap().clone(),
                    m => m.clone(),
                };
                let _ = b.store(&alike(k), &alike(v));
            }
            for _ in 0..src.below(3) {
                let k = p.any(src);
                if src.bool() {
                    let _ = b.delete(&k);
                } else {
                    let _ = b.store(&k, &p.any(src));
                }
            }
            b
        } else {
            p.hash(src, false)
        };
        h.push(b);
    }
    let mut vm = Executor {
        temp: vec![],
        frames: vec![],
        held: vec![],
        hashes: [Value::nil(); 2],
        script: Script::default(),
        key_period: 0,
        key_calls: 0,
        collections: 0,
    };
    let mut made = vec![];
    let g = &mut Globals { store: Store };
    for m in &h {
        let mut v = Value::hash(RubyMap::default());
        if m.ident {
            v.as_hash().compare_by_identity(&mut vm, g).unwrap();
        }
        for (k, x) in m.live() {
            // A key that is a copy has no number: made anew.
            let k = match k {
                M::Str { n: 0, text, .. } => {
                    let mut v = Value::string(&[text]);
                    v.set_frozen();
                    v
                }
                k => make(&k),
            };
            v.as_hash().insert(k, make(&x), &mut vm, g).unwrap();
        }
        match &m.default {
            M0::None => {}
            M0::Value(x) => v.as_hash().set_defalut_value(make(x), &mut vm, g).unwrap(),
            M0::Proc => v.as_hash().set_defalut_proc(Value::proc(), &mut vm, g).unwrap(),
        }
        if m.frozen {
            v.set_frozen();
        }
        made.push(v);
    }
    vm.hashes = [made[ix[0]], made[ix[1]]];
    (St { h, ix, script: Script::default(), open: false }, vm)
}

fn state(vm: &Executor, st: &mut St) -> R {
    for i in 0..2 {
        let v = vm.hashes[i];
        let m = st.h[st.ix[i]].clone();
        let got = pairs(v);
        same!(got, m.live(), "hash {i} afterwards");
        same!(v.as_hash().len(), got.len(), "the size of hash {i}");
        same!(v.as_hash().is_compare_by_identity(), m.ident, "how hash {i} compares");
    }
    Ok(())
}

fn one(vm: &mut Executor, st: &mut St, op: &Op) -> R {
    let before = st.script.log.len();
    let want = expect(st, op);
    let got = pbt::catch(|| perform(vm, op));
    let got = match got {
        Ok(r) => r,
        Err(e) => fail!("{op:?} ended with a panic: {e}"),
    };
    let got = got.map(|v| read_out(v, vm.hashes[0], op));
    if st.open {
        return Ok(());
    }
    same!(vm.script.log[before..], st.script.log[before..], "what the program's own code was asked by {op:?}");
    same!(got, want, "{op:?}");
    ensure!(vm.temp.is_empty(), "{op:?} leaves values put aside");
    state(vm, st)
}

fn fresh() {
    rvalue::reset();
    LIVE.with_borrow_mut(|l| l.clear());
}

fn answers(src: &mut Src, p: &Pool) -> M {
    match src.below(4) {
        0 => M::F,
        1 => M::Nil,
        2 => M::T,
        _ => p.any(src),
    }
}

/// A row of methods.
fn methods(src: &mut Src, cx: &mut Cx) -> R {
    fresh();
    let p = Pool::new(src);
    let (mut st, mut vm) = start(src, &p, true);
    note!(cx, "a = {:?} {:?} frozen {}", st.h[st.ix[0]].live(), st.h[st.ix[0]].default, st.h[0].frozen);
    note!(cx, "b = {:?}", st.h[st.ix[1]].live());
    let mut n = 0;
    while n < 10 && src.more(5) {
        n += 1;
        let op = any_op(src, &p, &st.h[0].clone(), false);
        note!(cx, "{op:?}");
        st.script = Script { steps: (0..src.below(12)).map(|_| Step { changes: vec![], collect: false, raise: src.chance(1, 30), answer: answers(src, &p) }).collect(), ..Script::default() };
        vm.script = st.script.clone();
        if st.h[0].len() >= 2 {
            cx.nontrivial();
        }
        one(&mut vm, &mut st, &op)?;
    }
    Ok(())
}

/// Equal hashes have equal `hash`, in whatever order their pairs came.
fn digests(src: &mut Src, cx: &mut Cx) -> R {
    fresh();
    let p = Pool::new(src);
    let (mut st, mut vm) = start(src, &p, false);
    note!(cx, "a = {:?}", st.h[st.ix[0]].live());
    note!(cx, "b = {:?}", st.h[st.ix[1]].live());
    let [a, b_] = vm.hashes;
    let eql = match call_in(&mut vm, b::eql, a, &[b_], false) {
        Ok(v) => v.as_bool(),
        Err(e) => fail!("eql? raised {e:?}"),
    };
    let eql_back = call_in(&mut vm, b::eql, b_, &[a], false).map(|v| v.as_bool());
    same!(eql_back, Ok(eql), "eql? the other way round");
    let (x, y) = (call_in(&mut vm, b::hash, a, &[], false), call_in(&mut vm, b::hash, b_, &[], false));
    let (Ok(x), Ok(y)) = (x, y) else { fail!("hash raised") };
    if eql {
        same!(x.id(), y.id(), "hash of two equal hashes");
        if st.h[0].len() >= 2 && st.ix[1] == 1 {
            cx.nontrivial();
        }
    } else {
        // Neither keys nor sizes alone decide it: one changed value shows.
        cx.label("different");
        let (l, r) = (st.a().live(), st.b().live());
        let differs = l.iter().map(|(k, v)| (k.digest(), v.digest())).collect::<BTreeSet<_>>()
            != r.iter().map(|(k, v)| (k.digest(), v.digest())).collect::<BTreeSet<_>>();
        if differs && l.len() >= 2 && l.len() == r.len() {
            cx.label("distinct digests expected");
            ensure!(x.id() != y.id(), "the same hash value for {l:?} and {r:?}");
        }
    }
    Ok(())
}

/// One method, while the code it asks changes the hashes and memory is collected.
fn callbacks(src: &mut Src, cx: &mut Cx) -> R {
    fresh();
    let p = Pool::new(src);
    let (mut st, mut vm) = start(src, &p, false);
    let asking = !src.chance(1, 8);
    let op = any_op(src, &p, &st.h[0].clone(), asking);
    note!(cx, "a = {:?} {:?}", st.h[st.ix[0]].live(), st.h[st.ix[0]].default);
    note!(cx, "b = {:?}{}", st.h[st.ix[1]].live(), if st.ix[1] == 0 { " (the same hash)" } else { "" });
    note!(cx, "{op:?}");
    let deletes_only = src.chance(1, 3);
    let steps: Vec<Step> = (0..src.range(1, 12))
        .map(|_| {
            let n = src.weighted(&[3, 3, 1, 1]);
            let changes = (0..n)
                .map(|_| {
                    let w = src.below(2) as usize;
                    let h = st.h[st.ix[w]].clone();
                    match src.weighted(&[if deletes_only { 0 } else { 4 }, 5, 2, if deletes_only { 0 } else { 1 }, if deletes_only { 0 } else { 1 }, if p.ident { 1 } else { 0 }]) {
                        0 => Change::Store(w, p.key(src, &h), p.any(src)),
                        1 => Change::Delete(w, p.key(src, &h)),
                        2 => Change::Shift(w),
                        3 => Change::Clear(w),
                        4 => Change::Replace(w),
                        _ => Change::Identity(w),
                    }
                })
                .collect();
            Step { changes, collect: src.chance(1, 2), raise: src.chance(1, 25), answer: answers(src, &p) }
        })
        .collect();
    vm.key_period = src.pick(&[0u64, 0, 1, 2, 3]);
    for (i, s) in steps.iter().enumerate() {
        note!(cx, "asked {}: {s:?}", i + 1);
    }
    st.script = Script { steps, ..Script::default() };
    vm.script = st.script.clone();
    let period = vm.key_period;
    let busy = st.h[0].len() >= 2;
    one(&mut vm, &mut st, &op)?;
    if st.open {
        cx.label("left open");
        return Ok(());
    }
    let done = vm.script.at.min(st.script.steps.len());
    if busy && (vm.collections > 0 || st.script.steps[..done].iter().any(|s| !s.changes.is_empty())) {
        cx.nontrivial();
    }
    // Nobody walks any more: keys may be added again.
    vm.key_period = 0;
    vm.collect();
    st.script = Script::default();
    vm.script = Script::default();
    one(&mut vm, &mut st, &Op::Store(M::Int(77), M::Int(1)))?;
    one(&mut vm, &mut st, &Op::Size)?;
    vm.hashes.swap(0, 1);
    st.ix.swap(0, 1);
    one(&mut vm, &mut st, &Op::Store(M::Int(78), M::Int(1)))?;
    one(&mut vm, &mut st, &Op::Keys)
}

const ASSUME: &[&str] = &[
    "values, calls and blocks are stand-ins; the hash itself and its methods are the real ones",
    "hash and eql? of keys do not change the hashes that are searched",
];

fn main() {
    pbt::main(&[
        sets::PROP,
        Prop {
            id: "C55",
            rule: "the receiver holds two pairs or more",
            assumptions: ASSUME,
            level: "exploration",
            suites: &[
                Suite { name: "methods", cases: 350_000, run: methods },
                Suite { name: "digests", cases: 150_000, run: digests },
            ],
            known: &[],
        },
        Prop {
            id: "C56",
            rule: "the receiver held two pairs or more, and one of the hashes was changed or memory collected while the method ran",
            assumptions: ASSUME,
            level: "exploration",
            suites: &[Suite { name: "callbacks", cases: 500_000, run: callbacks }],
            known: &[],
        },
    ]);
}
