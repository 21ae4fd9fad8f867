// Arrays as the interpreter keeps them, blocks to hand to their methods, and a collector that
// frees whatever the interpreter itself could not reach. Included after `world_num.rs`.

pub use std::collections::{HashMap, HashSet};
pub use value::{Array, ArrayInner};

pub type RubySet<T> = rubymap::RubySet<T, Executor, Globals, MonorubyErr>;

impl MonorubyErr {
    pub fn negative_argument() -> MonorubyErr {
        Self::argumenterr("negative argument")
    }
    pub fn negative_array_size() -> MonorubyErr {
        Self::argumenterr("negative array size")
    }
    pub fn index_too_small(i: i64, min: i64) -> MonorubyErr {
        Self::indexerr(format!("index {i} too small for array; minimum: {min}"))
    }
    pub fn wrong_number_of_arg_range(given: usize, want: std::ops::RangeInclusive<usize>) -> MonorubyErr {
        Self::argumenterr(format!("wrong number of arguments (given {given}, expected {want:?})"))
    }
    pub fn incompatible_encoding(_: &Store, _: Encoding, _: Encoding) -> MonorubyErr {
        Self::argumenterr("incompatible encodings")
    }
    pub fn cant_convert_error(_: &Store, _: Value, _: Value, _: &str, _: IdentId) -> MonorubyErr {
        Self::typeerr("can't convert")
    }
    pub fn cant_convert_error_ary(_: &Store, _: Value, _: Value) -> MonorubyErr {
        Self::typeerr("can't convert to Array")
    }
    pub fn runtimeerr(msg: impl ToString) -> MonorubyErr {
        Self::argumenterr(msg)
    }
}

// ---- strings ------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CodeRange {
    SevenBit,
    Valid,
    Broken,
    Unknown,
}
impl Encoding {
    pub fn compatible(a: Encoding, _: CodeRange, _: Encoding, _: CodeRange) -> Option<Encoding> {
        Some(a)
    }
}
impl RStringInner {
    pub fn from_encoding_scanned(bytes: &[u8], e: Encoding) -> RStringInner {
        Self::from_encoding(bytes, e)
    }
    pub fn from_str_scanned(s: &str) -> RStringInner {
        Self::from_str(s)
    }
    pub fn encoding(&self) -> Encoding {
        Encoding::Utf8
    }
    pub fn code_range(&self) -> CodeRange {
        CodeRange::SevenBit
    }
}
impl Globals {
    pub fn ofs(&self) -> Value {
        Value::nil()
    }
}

#[derive(Clone, Copy)]
pub struct RString(Value);
impl RString {
    pub fn to_str(&self) -> Result<&'static str> {
        self.0.is_str().ok_or_else(|| MonorubyErr::argumenterr("invalid byte sequence"))
    }
}

// ---- blocks -------------------------------------------------------------------------------------

pub type Block = std::rc::Rc<RefCell<dyn FnMut(&mut Executor, &[Value]) -> Result<Value>>>;

thread_local! {
    static BLOCKS: RefCell<Vec<Block>> = const { RefCell::new(vec![]) };
}

/// Calls a method with a block.
pub fn call_with(
    f: Method,
    recv: Value,
    args: Vec<Option<Value>>,
    block: impl FnMut(&mut Executor, &[Value]) -> Result<Value>,
) -> Result<Value> {
    let block: std::rc::Rc<RefCell<dyn FnMut(&mut Executor, &[Value]) -> Result<Value> + '_>> =
        std::rc::Rc::new(RefCell::new(block));
    // It is gone from the list before this returns.
    let block: Block = unsafe { std::mem::transmute(block) };
    let at = BLOCKS.with(|b| {
        b.borrow_mut().push(block);
        b.borrow().len() - 1
    });
    struct Gone(usize);
    impl Drop for Gone {
        fn drop(&mut self) {
            BLOCKS.with(|b| b.borrow_mut().truncate(self.0));
        }
    }
    let _gone = Gone(at);
    call_block(f, recv, args, Some(BlockHandler(at)))
}

#[derive(Clone, Copy)]
pub struct ProcData(BlockHandler);

impl Lfp {
    pub fn expect_block(&self) -> Result<BlockHandler> {
        self.block().ok_or_else(|| MonorubyErr::argumenterr("no block given"))
    }
    pub fn expect_no_block(&self) -> Result<()> {
        Ok(())
    }
}

impl Executor {
    pub fn get_block_data(&mut self, _: &mut Globals, bh: BlockHandler) -> Result<ProcData> {
        Ok(ProcData(bh))
    }
    pub fn invoke_block(&mut self, _: &mut Globals, data: &ProcData, args: &[Value]) -> Result<Value> {
        let block = BLOCKS.with(|b| b.borrow()[data.0.0].clone());
        self.frames.push(args.to_vec());
        let res = (block.borrow_mut())(self, args);
        self.frames.pop();
        res
    }
    pub fn invoke_block_once(&mut self, globals: &mut Globals, bh: BlockHandler, args: &[Value]) -> Result<Value> {
        self.invoke_block(globals, &ProcData(bh), args)
    }
    pub fn invoke_block_iter1(
        &mut self,
        globals: &mut Globals,
        bh: BlockHandler,
        iter: impl Iterator<Item = Value>,
    ) -> Result<()> {
        for v in iter {
            self.invoke_block(globals, &ProcData(bh), &[v])?;
        }
        Ok(())
    }
    pub fn ruby_warn_caller(&mut self, _: &mut Globals, _: &str) -> Result<()> {
        Ok(())
    }
    pub fn warn_deprecated(&mut self, _: &mut Globals, _: &str) -> Result<()> {
        Ok(())
    }
    pub fn generate_enumerator(&mut self, _: IdentId, v: Value, _: Vec<Value>, _: ()) -> Result<Value> {
        Ok(v)
    }
    pub fn generate_enumerator_with_size(
        &mut self,
        _: IdentId,
        v: Value,
        _: Vec<Value>,
        _: (),
        _: Option<Value>,
    ) -> Result<Value> {
        Ok(v)
    }
    pub fn temp_len(&self) -> usize {
        self.temp.len()
    }
    pub fn temp_at(&self, i: usize) -> Value {
        self.temp[i]
    }
    pub fn temp_clear(&mut self, n: usize) {
        self.temp.truncate(n);
    }
    pub fn temp_pop(&mut self) -> Value {
        self.temp.pop().unwrap()
    }
    pub fn temp_array_new(&mut self, n: impl Into<Option<usize>>) {
        let v = Value::array_with_capacity(n.into().unwrap_or(0));
        self.temp.push(v);
    }
    pub fn temp_array_push(&mut self, v: Value) {
        self.temp.last().unwrap().as_array().push(v);
    }
    pub fn temp_array_extend_from_slice(&mut self, s: &[Value]) {
        self.temp.last().unwrap().as_array().extend_from_slice(s);
    }
}

// ---- arrays -------------------------------------------------------------------------------------

impl Value {
    pub fn array_with_capacity(n: usize) -> Value {
        RValue::of(Cell::Array(ArrayInner::with_capacity(n))).pack()
    }
    pub fn array_empty() -> Value {
        Self::array_from_vec(vec![])
    }
    pub fn array1(v: Value) -> Value {
        Self::array_from_vec(vec![v])
    }
    pub fn array_from_iter(iter: impl Iterator<Item = Value>) -> Value {
        Self::array_from_vec(iter.collect())
    }
    pub fn array_from_inner(a: ArrayInner) -> Value {
        RValue::of(Cell::Array(a)).pack()
    }
    fn header(&self) -> Option<&'static RValue> {
        self.try_rvalue().map(|r| unsafe { &*(r as *const RValue) })
    }
    pub fn flags(&self) -> Option<&'static Flags> {
        self.header().map(|r| r.flags())
    }
    pub fn as_array_inner(&self) -> &'static ArrayInner {
        match self.cell() {
            Some(Cell::Array(a)) => a,
            _ => unreachable!(),
        }
    }
    pub fn as_array_inner_mut(&mut self) -> &'static mut ArrayInner {
        let p = self.header().unwrap() as *const RValue as *mut RValue;
        match unsafe { &mut (*p).0 } {
            Cell::Array(a) => a,
            _ => unreachable!(),
        }
    }
    pub fn write_barrier(&mut self, child: Value) {
        if !child.is_packed_value() {
            self.write_barrier_bulk();
        }
    }
    pub fn write_barrier_bulk(&mut self) {
        if let Some(f) = self.flags()
            && f.old.get()
        {
            f.remembered.set(true);
        }
    }
    pub fn is_frozen(&self) -> bool {
        self.flags().is_some_and(|f| f.frozen.get())
    }
    pub fn ensure_not_frozen(&self, _: &Store) -> Result<()> {
        if self.is_frozen() { Err(MonorubyErr::frozen()) } else { Ok(()) }
    }
    pub fn as_array_mut(self, store: &Store) -> Result<Array> {
        self.ensure_not_frozen(store)?;
        Ok(self.as_array())
    }
    pub fn is_array_ty(&self) -> bool {
        self.try_array_ty().is_some()
    }
    pub fn expect_array_ty(&self, _: &Globals) -> Result<Array> {
        self.try_array_ty().ok_or_else(|| MonorubyErr::typeerr("not an array"))
    }
    pub fn is_rstring_inner(&self) -> Option<&'static RStringInner> {
        match self.cell() {
            Some(Cell::Str(s)) => Some(s),
            _ => None,
        }
    }
    pub fn object(n: u32) -> Value {
        RValue::of(Cell::Object(n)).pack()
    }
    pub fn coerce_to_symbol_or_string(&self, _: &mut Executor, _: &mut Globals) -> Result<IdentId> {
        self.try_symbol().ok_or_else(|| MonorubyErr::typeerr("is not a symbol"))
    }
    pub fn inspect_inner(&self, store: &Store, _: &mut HashSet<u64>) -> String {
        self.inspect(store)
    }
    pub fn is_rstring(&self) -> Option<RString> {
        self.is_rstring_inner().map(|_| RString(*self))
    }
}
impl ObjTy {
    pub const ARITHMETIC_SEQUENCE: ObjTy = ObjTy(40);
}
impl MonorubyErr {
    pub fn frozen() -> MonorubyErr {
        MonorubyErr { kind: Kind::NoMethod, msg: "frozen".into() }
    }
}

// ---- collection ---------------------------------------------------------------------------------

thread_local! {
    /// What the program itself holds on to.
    static HELD: RefCell<Vec<Value>> = const { RefCell::new(vec![]) };
    /// Collections so far, and what they freed.
    static FREED: RefCell<(usize, usize)> = const { RefCell::new((0, 0)) };
}

pub fn hold(v: Value) -> Value {
    HELD.with(|h| h.borrow_mut().push(v));
    v
}

/// Frees what is reachable neither from what the program holds nor from what the interpreter has
/// put aside nor from the values of the call in progress.
pub fn collect(vm: &Executor) {
    let mut live: HashSet<*mut RValue> = HashSet::new();
    let mut todo: Vec<Value> = HELD.with(|h| h.borrow().clone());
    todo.extend(&vm.temp);
    todo.extend(vm.frames.iter().flatten());
    while let Some(v) = todo.pop() {
        let Some(r) = v.header() else { continue };
        if !live.insert(r as *const RValue as *mut RValue) {
            continue;
        }
        match &r.0 {
            Cell::Array(a) => todo.extend(a.iter()),
            Cell::Range(r) => todo.extend([r.start, r.end]),
            _ => {}
        }
    }
    let freed = HEAP.with(|h| {
        let mut h = h.borrow_mut();
        let before = h.len();
        h.retain(|p| {
            let keep = live.contains(p);
            if !keep {
                drop(unsafe { Box::from_raw(*p) });
            }
            keep
        });
        before - h.len()
    });
    FREED.with(|f| {
        let mut f = f.borrow_mut();
        f.0 += 1;
        f.1 += freed;
    });
}

/// Forgets everything between cases.
pub fn sweep_world() {
    HELD.with(|h| h.borrow_mut().clear());
    FREED.with(|f| *f.borrow_mut() = (0, 0));
    BLOCKS.with(|b| b.borrow_mut().clear());
    sweep_all();
}
