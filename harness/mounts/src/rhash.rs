//! C24, C25, C33, C34: the Ruby Hash, mounted as it is over stand-ins for values and the interpreter.

#![allow(dead_code, unused)]

use pbt::{Cx, Prop, R, Src, Suite, ensure, fail, note, same};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::mem::ManuallyDrop;
use std::num::NonZeroU64;

/// The random keys of the standard hasher, made the same in every run.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a };
    }
    len as isize
}

pub mod value {
    use super::*;
    pub fn seeded_hasher() -> std::collections::hash_map::DefaultHasher {
        std::collections::hash_map::DefaultHasher::new()
    }
    pub fn symbol_hash_label(id: IdentId, _escape: bool) -> String {
        format!("{id}")
    }
    pub use super::rvalue::*;
}

pub mod alloc {
    use super::*;
    pub trait GC<T: GCBox> {
        fn mark(&self, alloc: &mut Allocator<T>);
    }
    pub trait GCBox {}
    /// Records what was marked and knows which objects are old.
    pub struct Allocator<T> {
        pub marked: BTreeSet<u64>,
        pub old: BTreeSet<u64>,
        pub _t: std::marker::PhantomData<T>,
    }
    impl<T> Allocator<T> {
        pub fn new() -> Self {
            Allocator { marked: BTreeSet::new(), old: BTreeSet::new(), _t: std::marker::PhantomData }
        }
        pub fn is_old(&self, p: &T) -> bool {
            self.old.contains(&(p as *const T as u64))
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct IdentId(u32);

impl std::fmt::Display for IdentId {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "s{}", self.0)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MonorubyErr {
    Runtime(String),
    Other(String),
    /// The failure of a callback, by number.
    Raised(u64),
}

impl MonorubyErr {
    pub fn runtimeerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Runtime(msg.to_string())
    }
    pub fn argumenterr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Other(msg.to_string())
    }
    pub fn typeerr(msg: impl ToString) -> MonorubyErr {
        MonorubyErr::Other(msg.to_string())
    }
}

pub type Result<T> = std::result::Result<T, MonorubyErr>;
pub type RubyMap<K, V> = rubymap::RubyMap<K, V, Executor, Globals, MonorubyErr>;

pub struct Store;

pub struct Globals {
    pub store: Store,
}

/// Calls into "Ruby code" are counted, and the chosen one fails.
pub struct Executor {
    pub calls: u64,
    pub fail_at: Option<u64>,
    pub procs: Vec<(u64, Vec<u64>)>,
}

impl Executor {
    fn call(&mut self) -> Result<()> {
        self.calls += 1;
        if self.fail_at == Some(self.calls) { Err(MonorubyErr::Raised(self.calls)) } else { Ok(()) }
    }
    pub fn invoke_proc(&mut self, _globals: &mut Globals, p: &rvalue::Proc, args: &[rvalue::Value]) -> Result<rvalue::Value> {
        self.procs.push((rvalue::Value::from(*p).id(), args.iter().map(|a| a.id()).collect()));
        self.call()?;
        Ok(rvalue::Value::integer(7_000_000 + self.procs.len() as i64))
    }
}

pub mod rvalue {
    use super::*;
    pub use ruby_traits::{RubyEql, RubyHash};

    #[path = "/repo/monoruby/src/value/rvalue/hash.rs"]
    pub mod hash;
    pub use self::hash::*;

    pub const NIL: u64 = 0x04;
    pub const FALSE: u64 = 0x14;
    pub const TRUE: u64 = 0x1c;

    #[derive(Clone, Copy, PartialEq, Eq, Hash)]
    #[repr(transparent)]
    pub struct Value(NonZeroU64);

    impl Default for Value {
        fn default() -> Self {
            Value::nil()
        }
    }

    impl std::fmt::Debug for Value {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str(&self.show())
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(transparent)]
    pub struct Proc(Value);

    impl Proc {
        pub fn new(v: Value) -> Proc {
            Proc(v)
        }
        pub fn as_val(self) -> Value {
            self.0
        }
    }
    impl From<Proc> for Value {
        fn from(p: Proc) -> Value {
            p.0
        }
    }
    impl alloc::GC<RValue> for Proc {
        fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
            self.0.mark(alloc)
        }
    }

    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct ObjTy(pub u8);
    impl ObjTy {
        pub const OBJECT: ObjTy = ObjTy(1);
        pub const STRING: ObjTy = ObjTy(6);
        pub const HASH: ObjTy = ObjTy(9);
        pub const PROC: ObjTy = ObjTy(11);
    }

    #[derive(Clone, PartialEq, Eq, Debug, Hash)]
    pub struct RStringInner(Vec<u8>);
    impl RStringInner {
        pub fn as_bytes(&self) -> &[u8] {
            &self.0
        }
    }

    /// An object whose class defines `hash` and `eql?`.
    #[derive(Clone, Copy, PartialEq, Debug)]
    pub struct Obj {
        pub hash: u64,
        pub group: u64,
    }

    pub union Kind {
        pub hash: ManuallyDrop<HashBody>,
        pub string: ManuallyDrop<RStringInner>,
        pub obj: Obj,
    }

    #[repr(C)]
    pub struct RValue {
        pub flag: u16,
        pub ty: ObjTy,
        pub ty_flags: u8,
        pub class: u32,
        pub var_table: usize,
        pub kind: Kind,
        pub serial: u64,
    }

    pub const RVALUE_OFFSET_KIND: usize = std::mem::offset_of!(RValue, kind);
    pub const RVALUE_OFFSET_TY: usize = std::mem::offset_of!(RValue, ty);

    impl alloc::GCBox for RValue {}

    impl RValue {
        pub fn ty(&self) -> ObjTy {
            self.ty
        }
        pub fn id(&self) -> u64 {
            self as *const RValue as u64
        }
        pub fn ty_flags_ptr(&self) -> std::ptr::NonNull<u8> {
            unsafe { std::ptr::NonNull::new_unchecked((self as *const RValue as *mut u8).add(RVALUE_OFFSET_TY + 1)) }
        }
        pub fn ty_flags(&self) -> u8 {
            unsafe { *self.ty_flags_ptr().as_ref() }
        }
    }

    impl Drop for RValue {
        fn drop(&mut self) {
            unsafe {
                match self.ty {
                    ObjTy::HASH => hash::drop_hash_body(self.ty_flags, &mut self.kind.hash),
                    ObjTy::STRING => ManuallyDrop::drop(&mut self.kind.string),
                    _ => {}
                }
            }
        }
    }

    thread_local! {
        static HEAP: RefCell<Vec<*mut RValue>> = const { RefCell::new(Vec::new()) };
        /// (parent, child) or (parent, 0) for everything.
        pub static BARRIERS: RefCell<Vec<(u64, u64)>> = const { RefCell::new(Vec::new()) };
        static HASHING: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        static COMPARING: RefCell<HashSet<(u64, u64)>> = RefCell::new(HashSet::new());
    }

    /// Frees what the last case allocated.
    pub fn reset() {
        HASHING.with_borrow_mut(|h| h.clear());
        COMPARING.with_borrow_mut(|h| h.clear());
        BARRIERS.with_borrow_mut(|h| h.clear());
        for p in HEAP.take() {
            drop(unsafe { Box::from_raw(p) });
        }
    }

    fn new_rvalue(ty: ObjTy, ty_flags: u8, kind: Kind) -> Value {
        HEAP.with_borrow_mut(|h| {
            let p = Box::into_raw(Box::new(RValue { flag: 1, ty, ty_flags, class: 0, var_table: 0, kind, serial: h.len() as u64 }));
            h.push(p);
            Value(NonZeroU64::new(p as u64).unwrap())
        })
    }

    pub trait Settled {
        fn settled(self) -> Result<()>;
    }
    impl Settled for () {
        fn settled(self) -> Result<()> {
            Ok(())
        }
    }
    impl Settled for Result<()> {
        fn settled(self) -> Result<()> {
            self
        }
    }

    impl Value {
        pub fn from_bits(b: u64) -> Value {
            Value(NonZeroU64::new(b).unwrap())
        }
        pub fn nil() -> Value {
            Self::from_bits(NIL)
        }
        pub fn bool(b: bool) -> Value {
            Self::from_bits(if b { TRUE } else { FALSE })
        }
        pub fn integer(i: i64) -> Value {
            Self::from_bits((i << 1) as u64 | 1)
        }
        pub fn float(i: u64) -> Value {
            Self::from_bits(i << 3 | 2)
        }
        pub fn symbol(i: u32) -> Value {
            Self::from_bits((i as u64) << 32 | 0x0c)
        }
        pub fn string(s: &[u8]) -> Value {
            new_rvalue(ObjTy::STRING, 0, Kind { string: ManuallyDrop::new(RStringInner(s.to_vec())) })
        }
        pub fn object(o: Obj) -> Value {
            new_rvalue(ObjTy::OBJECT, 0, Kind { obj: o })
        }
        pub fn proc() -> Proc {
            Proc(new_rvalue(ObjTy::PROC, 0, Kind { obj: Obj { hash: 0, group: 0 } }))
        }
        pub fn hash_from_inner(inner: HashmapInner) -> Value {
            let (flags, body) = inner.into_parts();
            new_rvalue(ObjTy::HASH, flags, Kind { hash: ManuallyDrop::new(body) })
        }
        /// `dup` as the object representation does it.
        pub fn dup_hash(self) -> Value {
            let rv = self.try_rvalue().unwrap();
            let body = self.as_hashmap_inner().clone_body();
            new_rvalue(ObjTy::HASH, hash::sanitize_dup_flags(rv.ty_flags()), Kind { hash: ManuallyDrop::new(body) })
        }
        pub fn id(&self) -> u64 {
            self.0.get()
        }
        pub fn is_nil(&self) -> bool {
            self.id() == NIL
        }
        pub fn as_bool(&self) -> bool {
            self.id() & !0x10 != NIL
        }
        pub fn is_packed_value(&self) -> bool {
            self.id() & 7 != 0
        }
        pub fn is_fixnum(&self) -> bool {
            self.id() & 1 == 1
        }
        pub fn try_fixnum(&self) -> Option<i64> {
            self.is_fixnum().then(|| (self.id() as i64) >> 1)
        }
        pub fn is_flonum(&self) -> bool {
            self.id() & 3 == 2
        }
        pub fn is_symbol(&self) -> bool {
            self.id() & 0xff == 0x0c
        }
        pub fn try_symbol(&self) -> Option<IdentId> {
            self.is_symbol().then(|| IdentId((self.id() >> 32) as u32))
        }
        pub fn try_rvalue(&self) -> Option<&RValue> {
            if self.is_packed_value() { None } else { Some(unsafe { &*(self.id() as *const RValue) }) }
        }
        pub fn try_rvalue_mut(&mut self) -> Option<&mut RValue> {
            if self.is_packed_value() { None } else { Some(unsafe { &mut *(self.id() as *mut RValue) }) }
        }
        pub fn rvalue(&self) -> &RValue {
            self.try_rvalue().unwrap()
        }
        pub fn ty(&self) -> Option<ObjTy> {
            self.try_rvalue().map(|r| r.ty)
        }
        pub fn is_rstring_inner(&self) -> Option<&RStringInner> {
            let rv = self.try_rvalue()?;
            if rv.ty == ObjTy::STRING { Some(unsafe { &rv.kind.string }) } else { None }
        }
        pub fn is_str(&self) -> Option<&str> {
            self.is_rstring_inner().and_then(|s| std::str::from_utf8(s.as_bytes()).ok())
        }
        pub fn obj(&self) -> Option<Obj> {
            let rv = self.try_rvalue()?;
            if rv.ty == ObjTy::OBJECT { Some(unsafe { rv.kind.obj }) } else { None }
        }
        pub fn try_hash_ty(&self) -> Option<Hashmap> {
            (self.ty() == Some(ObjTy::HASH)).then(|| Hashmap::new_unchecked(*self))
        }
        pub fn as_hash(self) -> Hashmap {
            Hashmap::new(self)
        }
        pub fn as_hashmap_inner(&self) -> HashRef<'_> {
            unsafe { HashRef::from_rvalue(self.rvalue()) }
        }
        pub fn as_hashmap_inner_mut(&mut self) -> HashRefMut<'_> {
            unsafe { HashRefMut::from_rvalue(self.try_rvalue_mut().unwrap()) }
        }
        pub fn write_barrier(&mut self, child: Value) {
            BARRIERS.with_borrow_mut(|b| b.push((self.id(), child.id())));
        }
        pub fn write_barrier_bulk(&mut self) {
            BARRIERS.with_borrow_mut(|b| b.push((self.id(), 0)));
        }
        pub fn calculate_hash(self, e: &mut Executor, g: &mut Globals) -> Result<u64> {
            use std::hash::Hasher;
            let mut s = crate::value::seeded_hasher();
            self.ruby_hash(&mut s, e, g)?;
            Ok(s.finish())
        }
        pub fn ruby_hash_packed<H: std::hash::Hasher>(&self, state: &mut H) {
            use std::hash::Hash;
            self.0.hash(state)
        }
        pub fn debug(&self, _store: &Store) -> String {
            self.show()
        }
        pub fn inspect_inner(&self, store: &Store, set: &mut HashSet<u64>) -> String {
            if !self.is_packed_value() && !set.insert(self.id()) {
                return "...".to_string();
            }
            let s = match self.try_hash_ty() {
                Some(h) => h.inspect_inner(store, set),
                None => self.show(),
            };
            set.remove(&self.id());
            s
        }
        pub fn inspect(&self, store: &Store) -> String {
            self.inspect_inner(store, &mut HashSet::new())
        }
        pub fn show(&self) -> String {
            if self.is_nil() {
                return "nil".into();
            } else if self.id() == TRUE {
                return "true".into();
            } else if self.id() == FALSE {
                return "false".into();
            } else if let Some(i) = self.try_fixnum() {
                return format!("{i}");
            } else if let Some(s) = self.try_symbol() {
                return format!(":{s}");
            } else if self.is_packed_value() {
                return format!("{}.5", self.id() >> 3);
            }
            let rv = self.rvalue();
            if let Some(s) = self.is_rstring_inner() {
                format!("{:?}@{}", String::from_utf8_lossy(s.as_bytes()), rv.serial)
            } else if let Some(o) = self.obj() {
                format!("obj{}@{}", o.group, rv.serial)
            } else if self.ty() == Some(ObjTy::PROC) {
                format!("proc@{}", rv.serial)
            } else {
                format!("hash@{}", rv.serial)
            }
        }
    }

    impl alloc::GC<RValue> for Value {
        fn mark(&self, alloc: &mut alloc::Allocator<RValue>) {
            if !self.is_packed_value() {
                alloc.marked.insert(self.id());
            }
        }
    }

    impl RubyHash<Executor, Globals, MonorubyErr> for Value {
        fn ruby_hash<H: std::hash::Hasher>(&self, state: &mut H, e: &mut Executor, g: &mut Globals) -> Result<()> {
            use std::hash::Hash;
            if self.is_packed_value() {
                self.ruby_hash_packed(state);
            } else if let Some(s) = self.is_rstring_inner() {
                s.hash(state);
            } else if let Some(o) = self.obj() {
                e.call()?;
                o.hash.hash(state);
            } else if self.ty() == Some(ObjTy::HASH) {
                let id = self.id();
                if HASHING.with_borrow_mut(|h| !h.insert(id)) {
                    0u64.hash(state);
                    return Ok(());
                }
                let r = self.as_hashmap_inner().ruby_hash(state, e, g);
                HASHING.with_borrow_mut(|h| h.remove(&id));
                r?;
            } else {
                self.id().hash(state);
            }
            Ok(())
        }
    }

    impl RubyEql<Executor, Globals, MonorubyErr> for Value {
        fn eql(&self, other: &Self, e: &mut Executor, g: &mut Globals) -> Result<bool> {
            if self.id() == other.id() {
                return Ok(true);
            }
            if self.is_packed_value() || other.is_packed_value() {
                return Ok(false);
            }
            if let (Some(a), Some(b)) = (self.is_rstring_inner(), other.is_rstring_inner()) {
                return Ok(a == b);
            }
            if self.ty() == Some(ObjTy::HASH) && other.ty() == Some(ObjTy::HASH) {
                let pair = (self.id(), other.id());
                if COMPARING.with_borrow_mut(|c| !c.insert(pair)) {
                    return Ok(true);
                }
                let r = self.as_hashmap_inner().eql(&other.as_hashmap_inner(), e, g);
                COMPARING.with_borrow_mut(|c| c.remove(&pair));
                return r;
            }
            if let Some(a) = self.obj() {
                e.call()?;
                return Ok(other.obj().is_some_and(|b| a.group == b.group));
            }
            // The builtin `eql?` of everything else: no value of another kind.
            Ok(false)
        }
    }
}

use alloc::GC;
use rvalue::*;

// ---------------------------------------------------------------- the model

/// What a hash is: pairs in insertion order, each with the number of its insertion.
#[derive(Clone, Debug, Default)]
struct Model {
    pairs: Vec<(u64, Value, Value)>,
    ident: bool,
    /// The default value (nil if none) or the default proc.
    default: Option<Dflt>,
    r2k: bool,
    seq: u64,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Dflt {
    Value(Value),
    Proc(Proc),
}

impl Model {
    fn pos(&self, w: &World, k: Value) -> Option<usize> {
        self.pairs.iter().position(|p| w.key_same(self.ident, p.1, k))
    }
    fn get(&self, w: &World, k: Value) -> Option<Value> {
        self.pos(w, k).map(|i| self.pairs[i].2)
    }
    fn insert(&mut self, w: &World, k: Value, v: Value) {
        match self.pos(w, k) {
            Some(i) => self.pairs[i].2 = v,
            None => {
                self.seq += 1;
                self.pairs.push((self.seq, k, v));
            }
        }
    }
    fn list(&self) -> Vec<(Value, Value)> {
        self.pairs.iter().map(|p| (p.1, p.2)).collect()
    }
}

/// One hash under test with its model and the traversals in progress.
struct Live {
    h: Hashmap,
    m: Model,
    /// The traversals: whether the hash recorded it, the position reached, the last pair visited.
    walks: Vec<Walk>,
}

#[derive(Clone, Copy, Debug)]
struct Walk {
    real: bool,
    pos: usize,
    last: u64,
}

struct World {
    e: Executor,
    g: Globals,
    /// The values that serve as keys.
    keys: Vec<Value>,
    /// Models of the hashes that serve as keys or values and are never changed.
    fixed: BTreeMap<u64, Model>,
    live: Vec<Live>,
    fresh: i64,
}

impl World {
    fn new() -> World {
        rvalue::reset();
        World {
            e: Executor { calls: 0, fail_at: None, procs: vec![] },
            g: Globals { store: Store },
            keys: vec![],
            fixed: BTreeMap::new(),
            live: vec![],
            fresh: 0,
        }
    }

    /// `eql?` of two values, decided without the code under test.
    fn same(&self, a: Value, b: Value) -> bool {
        if a.id() == b.id() {
            return true;
        }
        if a.is_packed_value() || b.is_packed_value() {
            return false;
        }
        if let (Some(x), Some(y)) = (a.is_rstring_inner(), b.is_rstring_inner()) {
            return x.as_bytes() == y.as_bytes();
        }
        if let (Some(x), Some(y)) = (a.obj(), b.obj()) {
            return x.group == y.group;
        }
        match (self.fixed.get(&a.id()), self.fixed.get(&b.id())) {
            (Some(x), Some(y)) => self.same_hash(x, y),
            _ => false,
        }
    }

    fn same_hash(&self, x: &Model, y: &Model) -> bool {
        x.ident == y.ident
            && x.pairs.len() == y.pairs.len()
            && x.pairs.iter().all(|p| y.get(self, p.1).is_some_and(|v| self.same(p.2, v)))
    }

    fn key_same(&self, ident: bool, a: Value, b: Value) -> bool {
        if ident { a.id() == b.id() } else { self.same(a, b) }
    }

    fn new_value(&mut self, src: &mut Src) -> Value {
        self.fresh += 1;
        match src.weighted(&[6, 2, 1]) {
            0 => Value::integer(100 + self.fresh),
            1 => Value::string(format!("v{}", self.fresh).as_bytes()),
            _ => self.keys[src.usize(self.keys.len())],
        }
    }

    /// Draws the keys of the case. `hashes` allows hashes among them.
    fn make_keys(&mut self, src: &mut Src, cx: &mut Cx, hashes: bool) {
        let n = src.pick(&[3usize, 5, 8, 12, 20]);
        let kinds: &[u32] = match src.usize(4) {
            0 => &[6, 2, 1, 1, 0, 0, 0],
            1 => &[2, 1, 1, 0, 6, 2, 1],
            2 => &[1, 1, 0, 0, 2, 6, 1],
            _ => &[3, 2, 1, 1, 3, 3, 2],
        };
        for i in 0..n {
            let v = match src.weighted(kinds) {
                0 => Value::integer(src.range(0, 30) as i64 - 5),
                1 => Value::symbol(src.range(0, 6) as u32),
                2 => src.pick(&[Value::nil(), Value::bool(true), Value::bool(false)]),
                3 => Value::float(src.range(0, 4) as u64),
                4 => {
                    let s = src.pick(&["", "a", "b", "ab", "abc", "0123456789abcdef"]);
                    Value::string(s.as_bytes())
                }
                5 => {
                    // A few groups, so that several objects are eql?, and few hash values, so that others collide.
                    let group = src.range(0, 7) as u64;
                    Value::object(Obj { hash: if src.chance(1, 4) { 0 } else { group % 5 }, group })
                }
                _ if hashes && !self.keys.is_empty() => self.fixed_hash(src),
                _ => Value::integer(i as i64),
            };
            // One group must have one hash value.
            let v = match v.obj() {
                Some(o) => match self.keys.iter().filter_map(|k| k.obj()).find(|p| p.group == o.group) {
                    Some(p) => Value::object(p),
                    None => v,
                },
                None => v,
            };
            self.keys.push(v);
        }
        note!(cx, "keys {:?}", self.keys);
    }

    /// A hash that is not changed any more, built in a random order from few pairs.
    fn fixed_hash(&mut self, src: &mut Src) -> Value {
        let mut inner = HashmapInner::default();
        let mut m = Model::default();
        let ident = src.chance(1, 8);
        let n = src.pick(&[0usize, 1, 2, 2, 3, 4, 10]);
        let base = src.usize(self.keys.len());
        let up = src.bool();
        for i in 0..n {
            let off = if up { i } else { n - 1 - i };
            let k = if n == 10 { Value::integer(off as i64) } else { self.keys[(base + off) % self.keys.len()] };
            let v = if src.chance(1, 6) { Value::integer(1) } else { Value::integer(off as i64) };
            inner.insert(k, v, &mut self.e, &mut self.g).unwrap();
            m.insert(self, k, v);
        }
        let v = Value::hash_from_inner(inner);
        if ident {
            v.as_hash().compare_by_identity(&mut self.e, &mut self.g).unwrap();
            m.ident = true;
        }
        self.fixed.insert(v.id(), m);
        v
    }

    fn pick_key(&self, src: &mut Src, i: usize) -> Value {
        let m = &self.live[i].m;
        if !m.pairs.is_empty() && src.chance(2, 5) {
            // One that is there.
            let k = m.pairs[src.usize(m.pairs.len())].1;
            return k;
        }
        self.keys[src.usize(self.keys.len())]
    }
}

fn show(e: &MonorubyErr) -> String {
    format!("{e:?}")
}

/// Compares everything observable of hash `i` with its model.
fn check(w: &mut World, i: usize, full: bool) -> R {
    let l = &w.live[i];
    let (h, m) = (l.h, &l.m);
    let want = m.list();
    same!(h.len(), want.len(), "the size");
    same!(h.is_empty(), want.is_empty(), "is_empty");
    let got: Vec<(Value, Value)> = h.iter().collect();
    same!(got, want, "the pairs");
    same!(h.keys(), want.iter().map(|p| p.0).collect::<Vec<_>>(), "the keys");
    same!(h.values(), want.iter().map(|p| p.1).collect::<Vec<_>>(), "the values");
    // Position by position.
    let n = h.entry_count();
    ensure!(n >= want.len(), "{n} positions for {} pairs", want.len());
    let mut by_pos = vec![];
    for p in 0..n {
        let at = h.entry_at(p);
        same!(at.is_some(), h.live_at(p), "whether position {p} is live");
        by_pos.extend(at);
    }
    same!(by_pos, want, "the pairs position by position");
    for p in [n, n + 1, n + 7] {
        ensure!(h.entry_at(p).is_none() && !h.live_at(p), "position {p} of {n} is live");
    }
    if l.walks.is_empty() {
        ensure!(h.check_iter().is_ok(), "no traversal is in progress, but the hash says so");
    } else {
        ensure!(h.check_iter().is_err(), "{} traversals are in progress, but the hash says none", l.walks.len());
    }
    same!(h.is_compare_by_identity(), m.ident, "compare_by_identity?");
    let (dv, dp) = match m.default {
        None => (Some(Value::nil()), None),
        Some(Dflt::Value(v)) => (Some(v), None),
        Some(Dflt::Proc(p)) => (None, Some(p)),
    };
    same!(h.defalut_value(), dv, "the default value");
    same!(h.defalut_proc(), dp, "the default proc");
    same!(h.default_value(), dv.filter(|v| !v.is_nil()), "the default value that is set");
    same!(h.inner().ruby2_keywords_flag(), m.r2k, "the ruby2_keywords flag");
    if full {
        for j in 0..w.keys.len() {
            let k = w.keys[j];
            let l = &w.live[i];
            let want = l.m.get(w, k);
            let h = l.h;
            let got = h.get(k, &mut w.e, &mut w.g).map_err(|e| show(&e))?;
            same!(got, want, "the value for {k:?}");
            let got = h.contains_key(k, &mut w.e, &mut w.g).map_err(|e| show(&e))?;
            same!(got, want.is_some(), "whether {k:?} is there");
        }
    }
    Ok(())
}

/// Fails unless the store of `vals` into `h` was reported to the collector.
fn barrier(h: Hashmap, vals: &[Value]) -> R {
    let log = BARRIERS.with_borrow(|b| b.clone());
    let id = h.as_val().id();
    for v in vals {
        ensure!(
            v.is_packed_value() || log.iter().any(|&(p, c)| p == id && (c == 0 || c == v.id())),
            "{v:?} was stored into {:?}, but the collector was not told",
            h.as_val()
        );
    }
    Ok(())
}

/// How a history is steered.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Map,
    Faults,
    Walks,
}

/// What one step did, for the callers' own checks.
struct Step {
    /// The hash that was changed.
    hash: usize,
    /// What was stored into it.
    stored: Vec<Value>,
}

const NEW_KEY: &str = "the insertion of a new key during a traversal was not refused";

/// One operation on one of the hashes.
fn step(w: &mut World, src: &mut Src, cx: &mut Cx, mode: Mode) -> std::result::Result<Step, String> {
    let r = operation(w, src, cx, mode);
    w.e.fail_at = None;
    r
}

fn operation(w: &mut World, src: &mut Src, cx: &mut Cx, mode: Mode) -> std::result::Result<Step, String> {
    let i = src.usize(w.live.len());
    let mut done = Step { hash: i, stored: vec![] };
    let h = w.live[i].h;
    let mut hm = h;
    let busy = !w.live[i].walks.is_empty();
    let weights: &[u32] = match mode {
        Mode::Walks => &[12, 12, 2, 2, 4, 1, 6, 2, 1, 2, 2, 2, 1, 4, 20, 28, 12],
        _ => &[16, 7, 3, 1, 2, 1, 2, 1, 1, 1, 1, 1, 1, 2, 0, 0, 0],
    };
    let op = src.weighted(weights);
    // In fault histories the n-th call into Ruby code of the operation fails.
    let calls = w.e.calls;
    w.e.fail_at = if mode == Mode::Faults && src.chance(1, 2) { Some(calls + 1 + src.usize(4) as u64) } else { None };
    macro_rules! settle {
        ($r:expr) => {{
            let failed = w.e.fail_at.is_some_and(|f| w.e.calls >= f);
            let fail_at = w.e.fail_at.take();
            match $r {
                Err(MonorubyErr::Raised(n)) => {
                    ensure!(Some(n) == fail_at, "failure {n} was returned, {fail_at:?} was raised");
                    cx.label("callback failed");
                    note!(cx, "  failed");
                    return Ok(done);
                }
                r => {
                    ensure!(!failed, "a callback failed, but the operation did not say so");
                    r
                }
            }
        }};
    }
    match op {
        0 => {
            let k = w.pick_key(src, i);
            let v = w.new_value(src);
            note!(cx, "h{i}[{k:?}] = {v:?}");
            let new = w.live[i].m.pos(w, k).is_none();
            match settle!(hm.insert(k, v, &mut w.e, &mut w.g)) {
                Ok(()) => {
                    ensure!(!(busy && new), "{NEW_KEY}");
                    if new {
                        done.stored.push(k);
                    }
                    done.stored.push(v);
                    let mut m = std::mem::take(&mut w.live[i].m);
                    m.insert(w, k, v);
                    w.live[i].m = m;
                }
                Err(e) => {
                    ensure!(busy && new, "inserting {k:?} failed: {}", show(&e));
                    ensure!(matches!(e, MonorubyErr::Runtime(_)), "refused with {}", show(&e));
                    cx.label("new key refused");
                }
            }
        }
        1 => {
            let k = w.pick_key(src, i);
            note!(cx, "h{i}.delete({k:?})");
            let at = w.live[i].m.pos(w, k);
            let r = settle!(hm.remove(k, &mut w.e, &mut w.g)).map_err(|e| show(&e))?;
            same!(r, at.map(|p| w.live[i].m.pairs[p].2), "the deleted value");
            if let Some(p) = at {
                w.live[i].m.pairs.remove(p);
                if busy {
                    cx.label("deleted during a traversal");
                }
            }
        }
        2 => {
            note!(cx, "h{i}.shift");
            let r = settle!(hm.shift(&mut w.e, &mut w.g)).map_err(|e| show(&e))?;
            let m = &mut w.live[i].m;
            let want = if m.pairs.is_empty() { None } else { Some(m.pairs.remove(0)) };
            same!(r, want.map(|p| (p.1, p.2)), "the shifted pair");
        }
        3 => {
            note!(cx, "h{i}.clear");
            match settle!(hm.clear()) {
                Ok(()) => {
                    let m = &mut w.live[i].m;
                    m.pairs.clear();
                }
                Err(e) => {
                    ensure!(busy, "clear failed: {}", show(&e));
                    ensure!(matches!(e, MonorubyErr::Runtime(_)), "refused with {}", show(&e));
                }
            }
        }
        4 => {
            let k = w.pick_key(src, i);
            note!(cx, "index h{i}[{k:?}]");
            w.e.procs.clear();
            let r = settle!(h.index(&mut w.e, &mut w.g, k)).map_err(|e| show(&e))?;
            let m = &w.live[i].m;
            match (m.get(w, k), m.default) {
                (Some(v), _) => {
                    same!(r, v, "the value");
                    ensure!(w.e.procs.is_empty(), "the default proc was called");
                }
                (None, None) => same!(r, Value::nil(), "the default"),
                (None, Some(Dflt::Value(v))) => same!(r, v, "the default"),
                (None, Some(Dflt::Proc(p))) => {
                    same!(w.e.procs, vec![(Value::from(p).id(), vec![h.as_val().id(), k.id()])], "the calls of the default proc");
                    same!(r, Value::integer(7_000_001), "the answer of the default proc");
                }
            }
        }
        5 => {
            note!(cx, "h{i}.compare_by_identity");
            match settle!(hm.compare_by_identity(&mut w.e, &mut w.g)) {
                Ok(()) => {
                    ensure!(!busy, "compare_by_identity was not refused during a traversal");
                    w.live[i].m.ident = true;
                }
                Err(e) => ensure!(busy, "compare_by_identity failed: {}", show(&e)),
            }
        }
        6 => {
            let n = h.entry_count() + 2;
            let p = src.usize(n);
            let v = w.new_value(src);
            note!(cx, "set_value_at({p}, {v:?}) on h{i}");
            let key = h.entry_at(p).map(|x| x.0);
            hm.set_value_at(p, v);
            if let Some(k) = key {
                done.stored.push(v);
                let at = w.live[i].m.pairs.iter().position(|x| x.1.id() == k.id()).ok_or("the position holds an unknown key")?;
                w.live[i].m.pairs[at].2 = v;
            }
        }
        7 => {
            let v = if src.chance(1, 3) { Value::nil() } else { w.new_value(src) };
            note!(cx, "h{i}.default = {v:?}");
            settle!(hm.set_defalut_value(v, &mut w.e, &mut w.g)).map_err(|e| show(&e))?;
            w.live[i].m.default = if v.is_nil() { None } else { Some(Dflt::Value(v)) };
            done.stored.push(v);
        }
        8 => {
            let p = Value::proc();
            note!(cx, "h{i}.default_proc = {p:?}");
            settle!(hm.set_defalut_proc(p, &mut w.e, &mut w.g)).map_err(|e| show(&e))?;
            w.live[i].m.default = Some(Dflt::Proc(p));
            done.stored.push(p.into());
        }
        9 => {
            let j = src.usize(w.live.len());
            if i == j {
                return Ok(done);
            }
            note!(cx, "h{i}.replace(h{j})");
            let from = w.live[j].h.inner().clone_inner();
            if let Err(e) = Settled::settled(hm.replace_inner(from)) {
                ensure!(busy, "replace failed: {}", show(&e));
                return Ok(done);
            }
            ensure!(!busy, "replace was not refused during a traversal");
            let mut m = w.live[j].m.clone();
            m.r2k = false;
            w.live[i].m = m;
            done.stored.extend(w.live[i].m.pairs.iter().flat_map(|p| [p.1, p.2]));
            match w.live[i].m.default {
                Some(Dflt::Value(v)) => done.stored.push(v),
                Some(Dflt::Proc(p)) => done.stored.push(p.into()),
                None => {}
            }
        }
        10 => {
            if w.live.len() >= 4 {
                return Ok(done);
            }
            note!(cx, "h{} = h{i}.dup", w.live.len());
            let v = w.live[i].h.as_val().dup_hash();
            let mut m = w.live[i].m.clone();
            m.r2k = false;
            w.live.push(Live { h: v.as_hash(), m, walks: vec![] });
            check(w, w.live.len() - 1, false)?;
        }
        11 => {
            let on = src.bool();
            note!(cx, "ruby2_keywords flag of h{i}: {on}");
            if on { hm.set_ruby2_keywords_flag() } else { hm.unset_ruby2_keywords_flag() }
            w.live[i].m.r2k = on;
        }
        12 => {
            if !w.live[i].m.pairs.is_empty() || busy {
                return Ok(done);
            }
            let on = src.bool();
            note!(cx, "h{i}, cleared, compares by identity: {on}");
            hm.clear().map_err(|e| show(&e))?;
            hm.set_compare_by_identity_empty(on).map_err(|e| show(&e))?;
            w.live[i].m.ident = on;
        }
        13 => {
            let j = src.usize(w.live.len());
            note!(cx, "h{i}.eql?(h{j})");
            let (a, b) = (w.live[i].h, w.live[j].h);
            let r = settle!(a.as_val().eql(&b.as_val(), &mut w.e, &mut w.g)).map_err(|e| show(&e))?;
            let want = i == j || w.same_hash(&w.live[i].m, &w.live[j].m);
            same!(r, want, "eql?");
            if want {
                let x = a.as_val().calculate_hash(&mut w.e, &mut w.g).map_err(|e| show(&e))?;
                let y = b.as_val().calculate_hash(&mut w.e, &mut w.g).map_err(|e| show(&e))?;
                ensure!(x == y, "two hashes are eql?, but their hash values differ");
                if i != j && !w.live[i].m.pairs.is_empty() {
                    cx.label("eql? hashes");
                }
            }
        }
        14 => {
            if w.live[i].walks.len() >= 6 {
                return Ok(done);
            }
            let real = h.iter_incr();
            note!(cx, "traversal {} of h{i} begins", w.live[i].walks.len());
            w.live[i].walks.push(Walk { real, pos: 0, last: 0 });
            if w.live[i].walks.len() > 3 {
                cx.label("more than three traversals");
            }
        }
        15 => {
            if !busy {
                return Ok(done);
            }
            let n = src.usize(w.live[i].walks.len());
            walk_step(w, cx, i, n)?;
        }
        _ => {
            if !busy {
                return Ok(done);
            }
            let ws = &w.live[i].walks;
            // Traversals beyond the recorded depth end in the reverse order of their beginning.
            let n = if ws.iter().any(|x| !x.real) { ws.len() - 1 } else { src.usize(ws.len()) };
            end_walk(w, src, cx, i, n)?;
        }
    }
    Ok(done)
}

/// One step of a traversal, the way `Hash#each` makes it. Answers whether it was at the end.
fn walk_step(w: &mut World, cx: &mut Cx, i: usize, n: usize) -> std::result::Result<bool, String> {
    let h = w.live[i].h;
    let mut walk = w.live[i].walks[n];
    let mut seen = None;
    while walk.pos < h.entry_count() {
        let p = walk.pos;
        walk.pos += 1;
        if h.live_at(p) {
            seen = h.entry_at(p);
            ensure!(seen.is_some(), "position {p} is live but holds no pair");
            break;
        }
    }
    let want = w.live[i].m.pairs.iter().find(|x| x.0 > walk.last).copied();
    note!(cx, "traversal {n} of h{i} sees {seen:?}");
    same!(seen, want.map(|x| (x.1, x.2)), "the next pair of traversal {n}");
    if let Some(x) = want {
        walk.last = x.0;
    }
    w.live[i].walks[n] = walk;
    Ok(seen.is_none())
}

fn end_walk(w: &mut World, src: &mut Src, cx: &mut Cx, i: usize, n: usize) -> R {
    if src.bool() {
        // To its end, or broken off.
        while !walk_step(w, cx, i, n)? {}
    }
    note!(cx, "traversal {n} of h{i} ends");
    let walk = w.live[i].walks.remove(n);
    w.live[i].h.iter_decr(walk.real);
    Ok(())
}

fn make_hash(w: &mut World, src: &mut Src, cx: &mut Cx) -> R {
    let i = w.live.len();
    let mut m = Model::default();
    let inner = match src.weighted(&[6, 2, 2, 1, 1]) {
        0 => HashmapInner::default(),
        1 => HashmapInner::with_capacity(src.pick(&[0usize, 1, 3, 4, 8, 9, 40])),
        k => {
            let mut map = RubyMap::default();
            let n = src.pick(&[0usize, 1, 2, 3, 4, 7, 8, 9, 12]);
            for _ in 0..n {
                let k = w.keys[src.usize(w.keys.len())];
                let v = w.new_value(src);
                map.insert(k, v, &mut w.e, &mut w.g).map_err(|e| show(&e))?;
                m.insert(w, k, v);
            }
            match k {
                2 => HashmapInner::new(map),
                3 => {
                    let v = if src.chance(1, 3) { Value::nil() } else { w.new_value(src) };
                    m.default = if v.is_nil() { None } else { Some(Dflt::Value(v)) };
                    HashmapInner::new_with_default(map, v)
                }
                _ => {
                    let p = Value::proc();
                    m.default = Some(Dflt::Proc(p));
                    HashmapInner::new_with_default_proc(map, p)
                }
            }
        }
    };
    note!(cx, "h{i}: {:?}, default {:?}", m.list(), m.default);
    let h = Value::hash_from_inner(inner).as_hash();
    w.live.push(Live { h, m, walks: vec![] });
    check(w, i, true)
}

fn world(src: &mut Src, cx: &mut Cx, hashes: bool) -> std::result::Result<World, String> {
    let mut w = World::new();
    w.make_keys(src, cx, hashes);
    for _ in 0..src.pick(&[1usize, 1, 2]) {
        make_hash(&mut w, src, cx)?;
    }
    Ok(w)
}

fn size_label(cx: &mut Cx, n: usize) {
    cx.label(match n {
        0 => "empty",
        1..=3 => "1 to 3 pairs",
        4..=8 => "4 to 8 pairs",
        _ => "9 pairs or more",
    });
}

fn history(src: &mut Src, cx: &mut Cx, mode: Mode, mean: u64) -> R {
    let hashes = mode != Mode::Faults || src.chance(1, 3);
    let mut w = world(src, cx, hashes)?;
    let mut most = 0;
    while src.more(mean) {
        src.begin();
        let s = step(&mut w, src, cx, mode);
        src.end();
        let s = s?;
        for i in 0..w.live.len() {
            check(&mut w, i, i == s.hash && src.chance(1, 3))?;
        }
        most = most.max(w.live[s.hash].m.pairs.len());
    }
    // The traversals end, and the hashes accept new keys again.
    for i in 0..w.live.len() {
        while !w.live[i].walks.is_empty() {
            let n = w.live[i].walks.len() - 1;
            end_walk(&mut w, src, cx, i, n)?;
        }
        check(&mut w, i, true)?;
        let mut h = w.live[i].h;
        let k = Value::integer(5000 + i as i64);
        h.insert(k, k, &mut w.e, &mut w.g).map_err(|e| format!("a new key was refused after the last traversal: {}", show(&e)))?;
        let mut m = std::mem::take(&mut w.live[i].m);
        m.insert(&w, k, k);
        w.live[i].m = m;
        check(&mut w, i, true)?;
    }
    size_label(cx, most);
    rvalue::reset();
    Ok(())
}

fn map_histories(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, Mode::Map, 30)?;
    cx.nontrivial();
    Ok(())
}

fn fault_histories(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, Mode::Faults, 25)?;
    cx.nontrivial();
    Ok(())
}

fn walk_histories(src: &mut Src, cx: &mut Cx) -> R {
    history(src, cx, Mode::Walks, 40)?;
    cx.nontrivial();
    Ok(())
}

/// Two hashes of the same pairs, reached in different ways, are the same to every observer.
fn two_ways(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new();
    w.make_keys(src, cx, true);
    let n = src.pick(&[0usize, 1, 2, 3, 4, 5, 8, 9, 14]);
    let mut target = Model::default();
    for _ in 0..n {
        let k = w.keys[src.usize(w.keys.len())];
        let v = w.new_value(src);
        target.insert(&w, k, v);
    }
    note!(cx, "the pairs are {:?}", target.list());
    let mut made = vec![];
    for side in 0..2 {
        let v = Value::hash_from_inner(match src.usize(3) {
            0 => HashmapInner::default(),
            1 => HashmapInner::with_capacity(src.pick(&[4usize, 9, 20])),
            _ => HashmapInner::new_with_default(RubyMap::default(), Value::integer(3)),
        });
        let mut h = v.as_hash();
        // Other pairs come and go.
        let mut order: Vec<(Value, Value)> = target.list();
        let same_order = src.bool();
        if !same_order {
            for i in (1..order.len()).rev() {
                order.swap(i, src.usize(i + 1));
            }
        }
        let extra = src.pick(&[0usize, 0, 2, 6, 12]);
        for x in 0..extra {
            h.insert(Value::integer(900 + x as i64), Value::nil(), &mut w.e, &mut w.g).map_err(|e| show(&e))?;
        }
        for &(k, v) in &order {
            h.insert(k, v, &mut w.e, &mut w.g).map_err(|e| show(&e))?;
        }
        // Either outright or during a traversal, which leaves marks behind.
        let marks = src.bool();
        let real = marks.then(|| h.iter_incr());
        for x in 0..extra {
            let r = h.remove(Value::integer(900 + x as i64), &mut w.e, &mut w.g).map_err(|e| show(&e))?;
            same!(r, Some(Value::nil()), "the deleted value");
        }
        real.map(|r| h.iter_decr(r));
        let ident = false;
        note!(cx, "side {side}: order {order:?}, {extra} more that were deleted{}", if marks { " during a traversal" } else { "" });
        made.push((v, order, marks && extra > 0));
    }
    let (a, b) = (made[0].0, made[1].0);
    for (x, y) in [(a, b), (b, a)] {
        ensure!(x.eql(&y, &mut w.e, &mut w.g).map_err(|e| show(&e))?, "hashes of the same pairs are not eql?");
    }
    let x = a.calculate_hash(&mut w.e, &mut w.g).map_err(|e| show(&e))?;
    let y = b.calculate_hash(&mut w.e, &mut w.g).map_err(|e| show(&e))?;
    ensure!(x == y, "hashes of the same pairs are eql? but have different hash values");
    // As keys they are one key.
    let mut outer = Value::hash_from_inner(HashmapInner::default()).as_hash();
    outer.insert(a, Value::integer(1), &mut w.e, &mut w.g).map_err(|e| show(&e))?;
    let got = outer.get(b, &mut w.e, &mut w.g).map_err(|e| show(&e))?;
    same!(got, Some(Value::integer(1)), "the value under an eql? hash");
    // What is printed is the pairs in the order of insertion.
    for (v, order, _) in &made {
        let text = v.as_hash().to_s(&w.g.store, v.id());
        let parts: Vec<String> = order
            .iter()
            .map(|(k, v)| match k.try_symbol() {
                Some(s) => format!("{s}: {}", inspect(&w, *v)),
                None => format!("{} => {}", inspect(&w, *k), inspect(&w, *v)),
            })
            .collect();
        same!(text, format!("{{{}}}", parts.join(", ")), "the inspected form");
    }
    if n > 0 {
        cx.nontrivial();
    }
    size_label(cx, target.pairs.len());
    rvalue::reset();
    Ok(())
}

fn inspect(w: &World, v: Value) -> String {
    match w.fixed.get(&v.id()) {
        Some(m) => {
            let parts: Vec<String> = m
                .pairs
                .iter()
                .map(|p| match p.1.try_symbol() {
                    Some(s) => format!("{s}: {}", inspect(w, p.2)),
                    None => format!("{} => {}", inspect(w, p.1), inspect(w, p.2)),
                })
                .collect();
            format!("{{{}}}", parts.join(", "))
        }
        None => v.show(),
    }
}

/// What a hash refers to is what the collector is shown.
fn references(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = world(src, cx, true)?;
    let mode = if src.bool() { Mode::Walks } else { Mode::Map };
    let mut stored = 0;
    while src.more(25) {
        src.begin();
        BARRIERS.with_borrow_mut(|b| b.clear());
        let s = step(&mut w, src, cx, mode);
        src.end();
        let s = s?;
        barrier(w.live[s.hash].h, &s.stored)?;
        stored += s.stored.iter().filter(|v| !v.is_packed_value()).count();
        let l = &w.live[s.hash];
        let mut want: BTreeSet<u64> = l.m.pairs.iter().flat_map(|p| [p.1, p.2]).filter(|v| !v.is_packed_value()).map(|v| v.id()).collect();
        match l.m.default {
            Some(Dflt::Value(v)) if !v.is_packed_value() => {
                want.insert(v.id());
            }
            Some(Dflt::Proc(p)) => {
                want.insert(Value::from(p).id());
            }
            _ => {}
        }
        let mut a = alloc::Allocator::<RValue>::new();
        l.h.inner().mark(&mut a);
        let missing: Vec<_> = want.difference(&a.marked).map(|&x| Value::from_bits(x)).collect();
        ensure!(missing.is_empty(), "not marked: {missing:?}");
        let more: Vec<_> = a.marked.difference(&want).collect();
        ensure!(more.is_empty(), "{} objects were marked that the hash does not refer to", more.len());
        // Young or not: all old but at most one.
        a.old = want.clone();
        ensure!(!l.h.inner().young_child_exists(&a), "every object is old, but a young one was reported");
        let all: Vec<u64> = want.iter().copied().collect();
        if !all.is_empty() {
            let y = all[src.usize(all.len())];
            a.old.remove(&y);
            ensure!(l.h.inner().young_child_exists(&a), "{:?} is young, but no young object was reported", Value::from_bits(y));
        }
    }
    if stored > 0 {
        cx.nontrivial();
    }
    rvalue::reset();
    Ok(())
}

/// The hash as compiled code reads it: through the published offsets only.
struct Raw(*const u8);

impl Raw {
    unsafe fn word(&self, off: usize) -> u64 {
        unsafe { (self.0.add(off) as *const u64).read_unaligned() }
    }
    unsafe fn half(&self, off: usize) -> u32 {
        unsafe { (self.0.add(off) as *const u32).read_unaligned() }
    }
    fn flags(&self) -> u8 {
        unsafe { *self.0.add(RVALUE_OFFSET_TY + 1) }
    }
    fn boxed(&self) -> bool {
        self.flags() & HASH_REP_MASK == HASH_REP_BOXED
    }
    fn map(&self) -> Raw {
        Raw(unsafe { self.word(HASH_CONTENT_MAP_OFFSET) } as *const u8)
    }
    fn len(&self, lay: &rubymap::EntriesLayout, sub_dead: bool) -> u64 {
        if !self.boxed() {
            return (self.flags() & HASH_REP_MASK) as u64;
        }
        let n = unsafe { self.map().word(lay.len_offset) };
        if sub_dead { n - unsafe { self.half(HASH_DEAD_OFFSET) } as u64 } else { n }
    }
    /// Key and value of position `i`; `None` past the end or if the pair is dead.
    fn at(&self, lay: &rubymap::EntriesLayout, i: u64) -> Option<(u64, u64)> {
        if i >= self.len(lay, false) {
            return None;
        }
        unsafe {
            if !self.boxed() {
                let p = HASH_INLINE_PAIRS_OFFSET + i as usize * HASH_INLINE_PAIR_STRIDE;
                return Some((self.word(p + HASH_INLINE_KEY_OFFSET), self.word(p + HASH_INLINE_VALUE_OFFSET)));
            }
            let b = Raw((self.map().word(lay.ptr_offset) as usize + i as usize * lay.bucket_size) as *const u8);
            let k = b.word(lay.key_offset);
            if k == 0 { None } else { Some((k, b.word(lay.value_offset))) }
        }
    }
    fn ident(&self) -> bool {
        let bit = if self.boxed() {
            unsafe { self.word(HASH_CONTENT_OFFSET) }
        } else {
            (self.flags() >> HASH_INLINE_IDENT_BIT.trailing_zeros()) as u64
        };
        bit & 1 == 1
    }
    fn default(&self, proc: bool) -> u64 {
        if !self.boxed() {
            return NIL;
        }
        unsafe {
            let slot = self.word(HASH_DEFAULT_OFFSET);
            if slot == 0 {
                return NIL;
            }
            let d = Raw(slot as *const u8);
            let tag = if proc { HASH_DEFAULT_TAG_PROC } else { HASH_DEFAULT_TAG_VALUE };
            if d.word(0) != tag as u64 { NIL } else { d.word(HASH_DEFAULT_PAYLOAD_OFFSET) }
        }
    }
}

fn layout(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = world(src, cx, false)?;
    let Some(lay) = hash_entries_layout() else {
        // Compiled code then does without.
        cx.label("no layout is published");
        return Ok(());
    };
    let mode = if src.bool() { Mode::Walks } else { Mode::Map };
    let mut boxed = false;
    let mut inline = false;
    while src.more(30) {
        src.begin();
        let s = step(&mut w, src, cx, mode);
        src.end();
        let s = s?;
        let l = &w.live[s.hash];
        let raw = Raw(l.h.as_ptr() as *const u8);
        same!(raw.len(&lay, true), l.m.pairs.len() as u64, "the size compiled code reads");
        let n = raw.len(&lay, false);
        same!(n, l.h.entry_count() as u64, "the number of positions compiled code reads");
        let got: Vec<(u64, u64)> = (0..n).filter_map(|i| raw.at(&lay, i)).collect();
        let want: Vec<(u64, u64)> = l.m.pairs.iter().map(|p| (p.1.id(), p.2.id())).collect();
        same!(got, want, "the pairs compiled code reads");
        for i in 0..n {
            same!(raw.at(&lay, i).is_some(), l.h.live_at(i as usize), "whether compiled code finds position {i} live");
        }
        same!(raw.ident(), l.m.ident, "the identity mode compiled code reads");
        let (dv, dp) = match l.m.default {
            None => (NIL, NIL),
            Some(Dflt::Value(v)) => (v.id(), NIL),
            Some(Dflt::Proc(p)) => (NIL, Value::from(p).id()),
        };
        same!(raw.default(false), dv, "the default compiled code reads");
        same!(raw.default(true), dp, "the default proc compiled code reads");
        if raw.boxed() { boxed = true } else { inline = true }
        if l.m.pairs.len() != n as usize {
            cx.label("dead positions");
        }
    }
    // A hash literal is filled in by compiled code.
    let n = src.usize(HASH_INLINE_CAP + 1);
    let v = Value::hash_from_inner(HashmapInner::default());
    let mut m = Model::default();
    let p = v.id() as *mut u8;
    for i in 0..n {
        let (k, x) = (Value::integer(i as i64 * 3), w.new_value(src));
        m.insert(&w, k, x);
        unsafe {
            let at = p.add(HASH_INLINE_PAIRS_OFFSET + i * HASH_INLINE_PAIR_STRIDE);
            (at.add(HASH_INLINE_KEY_OFFSET) as *mut u64).write(k.id());
            (at.add(HASH_INLINE_VALUE_OFFSET) as *mut u64).write(x.id());
        }
    }
    unsafe { *p.add(RVALUE_OFFSET_TY + 1) = n as u8 };
    w.live.push(Live { h: v.as_hash(), m, walks: vec![] });
    let i = w.live.len() - 1;
    note!(cx, "a literal of {n} pairs");
    check(&mut w, i, true)?;
    if boxed || inline {
        cx.nontrivial();
    }
    if boxed && inline {
        cx.label("both storages");
    }
    rvalue::reset();
    Ok(())
}

static PROPS: &[Prop] = &[
    Prop {
        id: "C24",
        rule: "histories of operations over one to four hashes, keys drawn from immediates, strings, objects with their own hash and eql?, and hashes; every history is non-trivial, a pair of hashes if it holds a pair",
        assumptions: &["values, strings, objects and the interpreter are stand-ins that answer hash and eql? as the originals do"],
        level: "exploration",
        suites: &[
            Suite { name: "histories", cases: 200_000, run: map_histories },
            Suite { name: "failing callbacks", cases: 120_000, run: fault_histories },
            Suite { name: "two ways to the same pairs", cases: 160_000, run: two_ways },
        ],
        known: &[],
    },
    Prop {
        id: "C25",
        rule: "histories with up to six traversals in progress per hash, each stepped the way Hash#each steps, between insertions, deletions, shifts and clears; every history is non-trivial",
        assumptions: &["values and the interpreter are stand-ins; traversals beyond the third of a small hash end in reverse order of their beginning"],
        level: "exploration",
        suites: &[Suite { name: "traversals", cases: 300_000, run: walk_histories }],
        known: &[],
    },
    Prop {
        id: "C33",
        rule: "histories of operations; after each, the objects the hash refers to by the model are compared with those it marks and reports; non-trivial if an object was stored",
        assumptions: &["the collector is a stand-in that records marks and barriers"],
        level: "exploration",
        suites: &[Suite { name: "references", cases: 400_000, run: references }],
        known: &[],
    },
    Prop {
        id: "C34",
        rule: "histories of operations; after each, the hash is read through the published offsets as compiled code does; non-trivial if an operation was made",
        assumptions: &["the instruction sequences that read the layout are transcribed by hand"],
        level: "exploration",
        suites: &[Suite { name: "published layout", cases: 600_000, run: layout }],
        known: &[],
    },
];

fn main() {
    pbt::main(PROPS)
}
