//! Instrumented keys and values, callback faults, and a ledger of live instances.

use pbt::Src;
use ruby_traits::{RubyEql, RubyHash, RubySymEql, RubySymHash};
use std::borrow::Borrow;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};

/// The error user code raises; carries the number of the callback that raised it.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fault(pub u64);

/// First context argument threaded through every fallible call.
#[derive(Debug, PartialEq)]
pub struct Vm(pub u32);
/// Second context argument.
#[derive(Debug, PartialEq)]
pub struct Gl(pub u32);

pub const VM_MAGIC: u32 = 0x766d_766d;
pub const GL_MAGIC: u32 = 0x676c_676c;

pub fn ctx() -> (Vm, Gl) {
    (Vm(VM_MAGIC), Gl(GL_MAGIC))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Error,
    Panic,
}

#[derive(Default)]
pub struct Plan {
    /// Callbacks made since the plan was set.
    pub calls: u64,
    /// The callback (counted from 1) that fails; 0 for none.
    pub fail_at: u64,
    pub panics: bool,
    /// Which callback classes count.
    pub only: Option<&'static str>,
    pub fired: bool,
    /// Equality callbacks made while logging: (searched id, stored id, hashes equal).
    pub log: Option<Vec<(u32, u32, bool)>>,
    pub hashes: u64,
    /// Callbacks since the last verification: a bound that turns endless loops into failures.
    pub total: u64,
    pub bad: Option<String>,
}

thread_local! {
    static PLAN: RefCell<Plan> = RefCell::new(Plan::default());
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

/// No few operations need anywhere near this many callbacks.
const CALL_LIMIT: u64 = 40_000_000;

#[derive(Default)]
pub struct Ledger {
    live: Vec<u8>,
    count: i64,
    bad: Option<String>,
}

/// Forgets everything of the previous case.
pub fn reset() {
    PLAN.with(|p| *p.borrow_mut() = Plan::default());
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.live.clear();
        l.count = 0;
        l.bad = None;
    });
}

/// Begins counting callbacks anew.
pub fn breathe() {
    PLAN.with(|p| p.borrow_mut().total = 0);
}

/// Arms the next failing callback.
pub fn arm(fail_at: u64, kind: Kind, only: Option<&'static str>) {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        p.calls = 0;
        p.fail_at = fail_at;
        p.panics = kind == Kind::Panic;
        p.only = only;
        p.fired = false;
    });
}

/// Disarms and tells whether the fault was delivered.
pub fn disarm() -> bool {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let f = p.fired;
        p.fail_at = 0;
        p.fired = false;
        f
    })
}

pub fn log_on() {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        p.log = Some(vec![]);
        p.hashes = 0;
    })
}

/// Equality log and number of hash callbacks since [`log_on`].
pub fn log_take() -> (Vec<(u32, u32, bool)>, u64) {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        (p.log.take().unwrap_or_default(), p.hashes)
    })
}

/// One user callback of class `class`.
pub fn tick(class: &'static str) -> Result<(), Fault> {
    let panic = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        p.total += 1;
        if p.total > CALL_LIMIT {
            p.total = 0;
            drop(p);
            panic!("more than {CALL_LIMIT} callbacks without an end: the operation does not end");
        }
        if class == "hash" {
            p.hashes += 1;
        }
        if p.fail_at != 0 && p.only.is_none_or(|o| o == class) {
            p.calls += 1;
            if p.calls == p.fail_at {
                p.fired = true;
                if p.panics && !std::thread::panicking() {
                    return Ok(true);
                }
                return Err(Fault(p.calls));
            }
        }
        Ok(false)
    })?;
    if panic {
        panic!("injected panic");
    }
    Ok(())
}

/// A callback that has no way to return an error: only panics are delivered.
pub fn tick_panic(class: &'static str) {
    let armed = PLAN.with(|p| {
        let p = p.borrow();
        p.fail_at == 0 || p.panics
    });
    if armed {
        let _ = tick(class);
    }
}

/// Drops only count when they are asked for by name.
fn tick_drop() {
    let armed = PLAN.with(|p| {
        let p = p.borrow();
        p.fail_at != 0 && p.panics && p.only == Some("drop")
    });
    if armed {
        let _ = tick("drop");
    }
}

/// Records an equality question asked through a caller-supplied predicate.
pub fn log_eql(a: Core, b: Core) {
    PLAN.with(|p| {
        if let Some(l) = &mut p.borrow_mut().log {
            l.push((a.id, b.id, a.h == b.h));
        }
    });
}

pub fn bad(msg: String) {
    PLAN.with(|p| {
        let mut p = p.borrow_mut();
        if p.bad.is_none() {
            p.bad = Some(msg);
        }
    })
}

/// Problems noticed inside callbacks or drops.
pub fn noticed() -> Result<(), String> {
    let a = PLAN.with(|p| p.borrow().bad.clone());
    let b = LEDGER.with(|l| l.borrow().bad.clone());
    match a.or(b) {
        Some(m) => Err(m),
        None => Ok(()),
    }
}

fn born() -> u32 {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        l.live.push(1);
        l.count += 1;
        l.live.len() as u32 - 1
    })
}

fn died(serial: u32, what: &str) {
    LEDGER.with(|l| {
        let mut l = l.borrow_mut();
        match l.live.get_mut(serial as usize) {
            Some(s) if *s == 1 => {
                *s = 0;
                l.count -= 1;
            }
            _ => {
                if l.bad.is_none() {
                    l.bad = Some(format!("{what} #{serial} dropped twice or never created"));
                }
            }
        }
    })
}

/// Number of live instances.
pub fn live() -> i64 {
    LEDGER.with(|l| l.borrow().count)
}

/// What a lookup key is: an identity and the hash it reports.
#[derive(Clone, Copy)]
pub struct Core {
    pub id: u32,
    pub h: u64,
}

impl std::fmt::Debug for Core {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}", self.id)
    }
}

/// An owned key. Two keys are equal when their ids are.
pub struct Key {
    pub core: Core,
    /// Which instance this is; on the heap so that a sanitizer sees stale uses.
    serial: Box<u32>,
}

impl Key {
    pub fn new(core: Core) -> Self {
        Key {
            core,
            serial: Box::new(born()),
        }
    }
    pub fn serial(&self) -> u32 {
        *self.serial
    }
}

impl Drop for Key {
    fn drop(&mut self) {
        died(*self.serial, "key");
        tick_drop();
    }
}

impl Clone for Key {
    fn clone(&self) -> Self {
        tick_panic("clone");
        Key::new(self.core)
    }
}

impl std::fmt::Debug for Key {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "k{}#{}", self.core.id, self.serial)
    }
}

fn check_ctx(e: &Vm, g: &Gl) {
    if e.0 != VM_MAGIC || g.0 != GL_MAGIC {
        bad("a callback received a different context".to_string());
    }
}

fn core_eql(a: &Core, b: &Core) -> Result<bool, Fault> {
    PLAN.with(|p| {
        if let Some(l) = &mut p.borrow_mut().log {
            l.push((a.id, b.id, a.h == b.h));
        }
    });
    tick("eql")?;
    Ok(a.id == b.id)
}

impl RubyEql<Vm, Gl, Fault> for Core {
    fn eql(&self, other: &Self, e: &mut Vm, g: &mut Gl) -> Result<bool, Fault> {
        check_ctx(e, g);
        core_eql(self, other)
    }
}
impl RubyHash<Vm, Gl, Fault> for Core {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, e: &mut Vm, g: &mut Gl) -> Result<(), Fault> {
        check_ctx(e, g);
        tick("hash")?;
        s.write_u64(self.h);
        Ok(())
    }
}
impl RubyEql<Vm, Gl, Fault> for Key {
    fn eql(&self, other: &Self, e: &mut Vm, g: &mut Gl) -> Result<bool, Fault> {
        check_ctx(e, g);
        core_eql(&self.core, &other.core)
    }
}
impl RubyHash<Vm, Gl, Fault> for Key {
    fn ruby_hash<H: Hasher>(&self, s: &mut H, e: &mut Vm, g: &mut Gl) -> Result<(), Fault> {
        RubyHash::ruby_hash(&self.core, s, e, g)
    }
}
impl RubySymEql for Core {
    fn eql(&self, other: &Self) -> bool {
        PLAN.with(|p| {
            if let Some(l) = &mut p.borrow_mut().log {
                l.push((self.id, other.id, self.h == other.h));
            }
        });
        self.id == other.id
    }
}
impl RubySymHash for Core {
    fn ruby_hash<H: Hasher>(&self, s: &mut H) {
        s.write_u64(self.h);
    }
}
impl Borrow<Core> for Key {
    fn borrow(&self) -> &Core {
        &self.core
    }
}
impl From<Core> for Key {
    fn from(c: Core) -> Key {
        Key::new(c)
    }
}
impl From<&Core> for Key {
    fn from(c: &Core) -> Key {
        Key::new(*c)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Self) -> bool {
        PLAN.with(|p| {
            if let Some(l) = &mut p.borrow_mut().log {
                l.push((self.core.id, o.core.id, self.core.h == o.core.h));
            }
        });
        tick_panic("eql");
        self.core.id == o.core.id
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Self) -> Ordering {
        tick_panic("cmp");
        self.core.id.cmp(&o.core.id)
    }
}
impl Hash for Core {
    fn hash<H: Hasher>(&self, s: &mut H) {
        tick_panic("hash");
        s.write_u64(self.h)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, s: &mut H) {
        self.core.hash(s)
    }
}

/// An owned value.
pub struct Val {
    pub v: u32,
    serial: Box<u32>,
}

impl Val {
    pub fn new(v: u32) -> Self {
        Val {
            v,
            serial: Box::new(born()),
        }
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        died(*self.serial, "value");
        tick_drop();
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        tick_panic("clone");
        Val::new(self.v)
    }
}
impl std::fmt::Debug for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "v{}", self.v)
    }
}
/// What a default value holds.
pub const DEFAULT: u32 = 0x4000_0000;

impl Default for Val {
    fn default() -> Self {
        Val::new(DEFAULT)
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Self) -> bool {
        self.v == o.v
    }
}
impl RubyEql<Vm, Gl, Fault> for Val {
    fn eql(&self, other: &Self, e: &mut Vm, g: &mut Gl) -> Result<bool, Fault> {
        check_ctx(e, g);
        tick("eql")?;
        Ok(self.v == other.v)
    }
}

/// A hasher that reports the number written to it.
#[derive(Default, Clone, Copy, Debug)]
pub struct Pass;

pub struct PassHasher(u64);

impl Hasher for PassHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 = (self.0.rotate_left(7) ^ *b as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = i;
    }
}

impl BuildHasher for Pass {
    type Hasher = PassHasher;
    fn build_hasher(&self) -> PassHasher {
        PassHasher(0)
    }
}

fn mix64(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// A set of keys with a way of hashing them.
#[derive(Clone, Copy, Debug)]
pub struct Universe {
    pub size: u32,
    pub mode: u8,
}

pub const MODES: u8 = 12;

impl Universe {
    pub fn draw(src: &mut Src) -> Self {
        src.begin();
        let mut size = src.pick(&[3u32, 9, 10, 14, 20, 36, 70, 150, 300, 1200]);
        let mode = src.below(MODES as u64) as u8;
        src.end();
        // every lookup is a linear search when nearly all keys collide
        if matches!(mode, 1 | 2 | 3 | 7 | 10) {
            size = size.min(150);
        }
        Universe { size, mode }
    }

    /// As [`draw`](Self::draw) with at most `max` keys.
    pub fn small(src: &mut Src, max: u32) -> Self {
        let mut u = Self::draw(src);
        u.size = u.size.min(max);
        u
    }

    pub fn core(&self, id: u32) -> Core {
        let i = id as u64;
        let h = match self.mode {
            0 => mix64(i),
            1 => 0,
            2 => u64::MAX,
            // a few distinct full hashes
            3 => mix64(i % 3),
            // same position, different tag bits
            4 => (i & 0x7f) << 57,
            // same tag bits, different positions
            5 => i,
            // same tag and same low bits, different middle bits
            6 => i << 20,
            // neighbouring positions at the very end of any table
            7 => u64::MAX.wrapping_sub(i % 5),
            // tags all ones, positions spread
            8 => mix64(i) | 0x7f << 57,
            // positions clustered, tags spread
            9 => (mix64(i) & 0x7f << 57) | i % 4,
            // the hash only has two values, in the top bit
            10 => (i & 1) << 63,
            // strided positions
            _ => i.wrapping_mul(16) | (i & 3) << 57,
        };
        Core { id, h }
    }

    pub fn any(&self, src: &mut Src) -> Core {
        let id = src.below(self.size as u64) as u32;
        self.core(id)
    }
}
