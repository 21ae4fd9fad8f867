//! Nested native calls described by a tree and executed through the generated wrappers.

use monoruby_attr::monoruby_builtin;
use pbt::{Cx, R, Src, ensure, note, same};
use std::rc::Rc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Value(u64);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct FuncId(u32);

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct BytecodePtr(usize);

/// A frame; two frames may run the same function.
#[derive(Debug, Clone, Copy)]
pub struct Lfp {
    addr: usize,
    func: FuncId,
}
impl PartialEq for Lfp {
    fn eq(&self, o: &Self) -> bool {
        self.addr == o.addr
    }
}
impl Eq for Lfp {}
impl Lfp {
    pub fn func_id(&self) -> FuncId {
        self.func
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
#[allow(dead_code)]
pub enum MonorubyErrKind {
    Exception,
    Arguments,
    Runtime,
    StopIteration,
    SystemExit(i64),
    MethodReturn(Value, Lfp),
    BlockBreak(Value, FuncId, Lfp),
    Retry,
    Redo,
    Throw(Value, Value),
    FiberKill,
    Fatal,
}

#[derive(Debug, Clone, PartialEq)]
pub struct MonorubyErr {
    kind: MonorubyErrKind,
    id: u64,
    trace: Vec<FuncId>,
}
impl MonorubyErr {
    pub fn kind(&self) -> &MonorubyErrKind {
        &self.kind
    }
}

type Result<T> = std::result::Result<T, MonorubyErr>;

#[derive(Debug, Clone, PartialEq)]
enum Ev {
    Enter(usize, Lfp, BytecodePtr),
    Trace(u64, FuncId),
    Set(MonorubyErr),
}

#[derive(Default)]
pub struct Executor {
    exception: Option<MonorubyErr>,
    log: Vec<Ev>,
    overwritten: bool,
}
impl Executor {
    pub fn set_error(&mut self, err: MonorubyErr) {
        self.overwritten |= self.exception.is_some();
        self.log.push(Ev::Set(err.clone()));
        self.exception = Some(err);
    }
}

pub struct Globals {
    nodes: Rc<Vec<Node>>,
    mark: u64,
}

pub mod kernel {
    use super::*;
    pub(crate) fn push_builtin_trace(vm: &mut Executor, globals: &Globals, err: &mut MonorubyErr, fid: FuncId) {
        assert_eq!(globals.mark, 0x5151);
        vm.log.push(Ev::Trace(err.id, fid));
        err.trace.push(fid);
    }
}

/// What a body does with the failure of its callee.
#[derive(Debug, Clone, Copy, PartialEq)]
enum OnFail {
    Propagate,
    Swallow,
    Replace,
}

#[derive(Debug, Clone)]
enum End {
    Value(Value),
    Fail(MonorubyErr),
}

#[derive(Debug, Clone)]
struct Node {
    form: usize,
    lfp: Lfp,
    pc: BytecodePtr,
    callees: Vec<(usize, OnFail)>,
    end: End,
}

/// The body shared by all wrapped functions.
fn body(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    let nodes = globals.nodes.clone();
    let i = lfp.addr / 16 - 1;
    vm.log.push(Ev::Enter(i, lfp, pc));
    let node = &nodes[i];
    let mut sum = 0;
    for &(c, on) in &node.callees {
        let callee = &nodes[c];
        match FORMS[callee.form](vm, globals, callee.lfp, callee.pc) {
            Some(v) => sum += v.0,
            None => {
                let err = vm.exception.take().expect("a failed call recorded no failure");
                match on {
                    OnFail::Propagate => return Err(err),
                    OnFail::Swallow => {}
                    OnFail::Replace => break,
                }
            }
        }
    }
    match &node.end {
        End::Value(v) => Ok(Value(v.0.wrapping_add(sum))),
        End::Fail(e) => Err(e.clone()),
    }
}

#[monoruby_builtin]
fn plain(vm: &mut Executor, globals: &mut Globals, lfp: Lfp, pc: BytecodePtr) -> Result<Value> {
    body(vm, globals, lfp, pc)
}

/// A documented function with other parameter names.
#[monoruby_builtin]
pub(super) fn renamed(pc: &mut Executor, lfp: &mut Globals, vm: Lfp, globals: BytecodePtr) -> Result<Value> {
    body(pc, lfp, vm, globals)
}

#[monoruby_builtin]
fn early(vm: &mut Executor, globals: &mut Globals, mut lfp: Lfp, mut pc: BytecodePtr) -> Result<Value> {
    let v = body(vm, globals, lfp, pc)?;
    lfp.addr = 0;
    pc.0 = 0;
    if v.0 % 2 == 0 {
        return Ok(v);
    }
    let _ = (lfp, pc);
    Ok(v)
}

type Native = extern "C" fn(&mut Executor, &mut Globals, Lfp, BytecodePtr) -> Option<Value>;
#[allow(improper_ctypes_definitions)]
static FORMS: [Native; 3] = [plain, renamed, early];

/// The model: what the call of node `i` has to report.
fn model(nodes: &[Node], i: usize, log: &mut Vec<Ev>) -> std::result::Result<Value, MonorubyErr> {
    let node = &nodes[i];
    log.push(Ev::Enter(i, node.lfp, node.pc));
    let mut sum = 0;
    let mut failure = None;
    for &(c, on) in &node.callees {
        match model(nodes, c, log) {
            Ok(v) => sum += v.0,
            Err(e) => match on {
                OnFail::Propagate => {
                    failure = Some(e);
                    break;
                }
                OnFail::Swallow => {}
                OnFail::Replace => break,
            },
        }
    }
    let r = match failure {
        Some(e) => Err(e),
        None => match &node.end {
            End::Value(v) => Ok(Value(v.0.wrapping_add(sum))),
            End::Fail(e) => Err(e.clone()),
        },
    };
    match r {
        Ok(v) => Ok(v),
        Err(mut e) => {
            if let MonorubyErrKind::MethodReturn(v, target) = &e.kind
                && target.addr == node.lfp.addr
            {
                return Ok(*v);
            }
            log.push(Ev::Trace(e.id, node.lfp.func));
            e.trace.push(node.lfp.func);
            log.push(Ev::Set(e.clone()));
            Err(e)
        }
    }
}

pub fn calls(src: &mut Src, cx: &mut Cx) -> R {
    // Every node may call nodes with larger numbers, so a run makes at most 2^n calls.
    let n = 1 + src.len(8);
    let frames: Vec<Lfp> = (0..n).map(|i| Lfp { addr: (i + 1) * 16, func: FuncId(src.below(3) as u32) }).collect();
    let stranger = Lfp { addr: 0x9990, func: frames[0].func };
    let mut nodes = vec![];
    let mut failures = 0;
    for i in 0..n {
        let mut callees = vec![];
        let last = i + 1 == n;
        if !last {
            let k = 1 + src.below(2) as usize;
            for j in 0..k {
                let c = if j == 0 { i + 1 } else { i + 1 + src.usize(n - i - 1) };
                let on = src.weighted(&[4, 1, 1]);
                callees.push((c, [OnFail::Propagate, OnFail::Swallow, OnFail::Replace][on]));
            }
        }
        let end = if src.chance(if last { 3 } else { 1 }, 4) {
            failures += 1;
            let v = Value(src.below(100));
            let frame = |src: &mut Src| if src.chance(1, 6) { stranger } else { frames[src.usize(n)] };
            let kind = match src.below(12) {
                0 => MonorubyErrKind::Exception,
                1 => MonorubyErrKind::SystemExit(v.0 as i64),
                2 => MonorubyErrKind::BlockBreak(v, frames[i].func, if src.bool() { frames[i] } else { frame(src) }),
                3 => MonorubyErrKind::Throw(v, Value(src.below(9))),
                4 => src.pick(&[MonorubyErrKind::Retry, MonorubyErrKind::Redo, MonorubyErrKind::FiberKill, MonorubyErrKind::Fatal, MonorubyErrKind::StopIteration, MonorubyErrKind::Arguments, MonorubyErrKind::Runtime]),
                5 => MonorubyErrKind::MethodReturn(v, frames[i]),
                _ => MonorubyErrKind::MethodReturn(v, frame(src)),
            };
            let old = src.below(3) as usize;
            End::Fail(MonorubyErr { kind, id: 1000 + i as u64, trace: vec![FuncId(77); old] })
        } else {
            End::Value(Value(src.below(100)))
        };
        nodes.push(Node { form: src.usize(3), lfp: frames[i], pc: BytecodePtr(7 + 3 * i + src.usize(2)), callees, end });
    }
    for (i, x) in nodes.iter().enumerate() {
        note!(cx, "{i}: {x:?}");
    }
    let mut log = vec![];
    let want = model(&nodes, 0, &mut log);
    let nodes = Rc::new(nodes);
    let mut vm = Executor::default();
    let mut globals = Globals { nodes: nodes.clone(), mark: 0x5151 };
    let top = &nodes[0];
    let got = FORMS[top.form](&mut vm, &mut globals, top.lfp, top.pc);
    same!(vm.log, log, "what happened during the call");
    ensure!(!vm.overwritten, "a failure was recorded over another");
    match want {
        Ok(v) => {
            same!(got, Some(v), "value of the call");
            same!(vm.exception, None, "failure recorded by a successful call");
        }
        Err(e) => {
            same!(got, None, "value of a failing call");
            same!(vm.exception, Some(e), "recorded failure");
        }
    }
    // The body stays callable without the wrapper.
    let mut vm = Executor::default();
    if let End::Fail(e) = &top.end
        && top.callees.is_empty()
    {
        same!(__plain(&mut vm, &mut globals, top.lfp, top.pc), Err(e.clone()), "the body itself");
    }
    if failures > 0 {
        cx.nontrivial();
    }
    Ok(())
}
