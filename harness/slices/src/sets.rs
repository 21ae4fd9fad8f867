//! C58: sets against lists without repetition.

use super::builtins::set as s;
use super::*;

#[derive(Clone, Default, Debug)]
struct S {
    e: Vec<M>,
    ident: bool,
    frozen: bool,
}

fn alike(a: &M, b: &M, ident: bool) -> bool {
    match (a, b) {
        (M::Str { n, .. }, M::Str { n: m, .. }) | (M::Obj { n, .. }, M::Obj { n: m, .. }) if ident => n == m,
        _ => a.eql(b),
    }
}
impl S {
    fn has(&self, x: &M) -> bool {
        self.e.iter().any(|y| alike(x, y, self.ident))
    }
    fn add(&mut self, x: &M) -> bool {
        let new = !self.has(x);
        if new {
            self.e.push(x.clone());
        }
        new
    }
    fn del(&mut self, x: &M) -> bool {
        let n = self.e.len();
        let ident = self.ident;
        self.e.retain(|y| !alike(x, y, ident));
        self.e.len() < n
    }
    fn of(l: &[M], ident: bool) -> S {
        let mut s = S { ident, ..S::default() };
        l.iter().for_each(|x| drop(s.add(x)));
        s
    }
    /// The elements of this one that another has as well, or has not.
    fn part(&self, other: &S, there: bool) -> Vec<M> {
        self.e.iter().filter(|x| other.has(x) == there).cloned().collect()
    }
    fn within(&self, other: &S) -> bool {
        self.e.len() <= other.e.len() && self.e.iter().all(|x| other.has(x))
    }
}

#[derive(Clone, Debug)]
enum Op {
    Of,
    Add(M),
    AddQ(M),
    Has(M),
    Delete(M),
    DeleteQ(M),
    Size,
    Empty,
    Clear,
    Each,
    ToA,
    Dup,
    Merge,
    Subtract,
    Replace,
    And,
    Or,
    Minus,
    Xor,
    Eq,
    Sub,
    Super,
    PSub,
    PSuper,
    Cmp,
    Disjoint,
    Intersect,
    DeleteIf,
    KeepIf,
    Select,
    Reject,
    Collect,
    Classify,
    Identity,
    IsIdentity,
}

/// What a method gives.
#[derive(Clone, Debug)]
enum Out {
    Same,
    Nil,
    Bool(bool),
    Int(i64),
    List(Vec<M>),
    /// A new set; whether the order of its elements is prescribed.
    Set(S, bool),
    Classes(Vec<(M, Vec<M>)>),
    Raised(E),
}

fn set_value(vm: &mut Executor, m: &S) -> Value {
    let g = &mut Globals { store: Store };
    let mut v = Value::hash_with_class_and_default(SET_CLASS, Value::nil());
    vm.held.push(v);
    if m.ident {
        v.as_hash().compare_by_identity(vm, g).unwrap();
    }
    for x in &m.e {
        let x = make(x);
        v.as_hash().insert(x, Value::bool(true), vm, g).unwrap();
    }
    if m.frozen {
        v.set_frozen();
    }
    v
}
fn list_value(vm: &mut Executor, l: &[M]) -> Value {
    let n = vm.held.len();
    for m in l {
        let v = make(m);
        vm.held.push(v);
    }
    let v = Value::array_from_vec(vm.held.split_off(n));
    vm.held.push(v);
    v
}
fn elements(v: Value) -> Vec<M> {
    v.as_hash().iter().map(|(k, _)| read(k)).collect()
}

fn holds(what: &str, v: Value, m: &S, ordered: bool) -> R {
    ensure!(v.is_kind_of(&Store, SET_CLASS), "{what}: not a set");
    let got = elements(v);
    let fits = |x: &M, y: &M| alike(x, y, m.ident);
    let same = got.len() == m.e.len()
        && if ordered { got.iter().zip(&m.e).all(|(x, y)| fits(x, y)) } else { got.iter().all(|x| m.e.iter().any(|y| fits(x, y))) };
    ensure!(same, "{what}: {got:?}, expected {:?}", m.e);
    same!(v.as_hash().len(), got.len(), "{what}: the size");
    same!(v.as_hash().is_compare_by_identity(), m.ident, "{what}: how it compares");
    for x in &m.e {
        let found = v.as_hashmap_inner().contains_key(make(x), &mut quiet(), &mut Globals { store: Store });
        same!(found, Ok(true), "{what}: whether it has {x:?}");
    }
    Ok(())
}
fn quiet() -> Executor {
    Executor { temp: vec![], frames: vec![], held: vec![], hashes: [Value::nil(); 2], script: Script::default(), key_period: 0, key_calls: 0, collections: 0 }
}

/// Asks the block about each element; an error ends it.
fn ask(sc: &mut Script, l: &[M]) -> std::result::Result<Vec<M>, E> {
    l.iter()
        .map(|x| {
            let step = sc.next("block", &[x.clone()]);
            if step.raise { Err(E::Raised(sc.at)) } else { Ok(step.answer) }
        })
        .collect()
}

fn expect(a: &mut S, b: &S, b_set: bool, sc: &mut Script, op: &Op) -> Out {
    let changing = matches!(
        op,
        Op::Add(_) | Op::AddQ(_) | Op::Delete(_) | Op::DeleteQ(_) | Op::Clear | Op::Merge | Op::Subtract | Op::Replace | Op::DeleteIf | Op::KeepIf | Op::Select | Op::Reject | Op::Collect | Op::Identity
    );
    if changing && a.frozen {
        return Out::Raised(E::Frozen);
    }
    let ordering = matches!(op, Op::Sub | Op::Super | Op::PSub | Op::PSuper);
    if ordering && !b_set {
        return Out::Raised(E::Argument);
    }
    let by_a = S::of(&b.e, a.ident);
    let answers = match op {
        Op::Each | Op::DeleteIf | Op::KeepIf | Op::Select | Op::Reject | Op::Collect | Op::Classify => match ask(sc, &a.e) {
            Ok(l) => l,
            Err(e) => return Out::Raised(e),
        },
        _ => vec![],
    };
    let new = |e: Vec<M>, ident: bool| Out::Set(S::of(&e, ident), true);
    match op {
        Op::Of => new(b.e.clone(), false),
        Op::Add(x) => {
            a.add(x);
            Out::Same
        }
        Op::AddQ(x) => if a.add(x) { Out::Same } else { Out::Nil },
        Op::Has(x) => Out::Bool(a.has(x)),
        Op::Delete(x) => {
            a.del(x);
            Out::Same
        }
        Op::DeleteQ(x) => if a.del(x) { Out::Same } else { Out::Nil },
        Op::Size => Out::Int(a.e.len() as i64),
        Op::Empty => Out::Bool(a.e.is_empty()),
        Op::Clear => {
            a.e.clear();
            Out::Same
        }
        Op::Each => Out::Same,
        Op::ToA => Out::List(a.e.clone()),
        Op::Dup => new(a.e.clone(), a.ident),
        Op::Merge => {
            b.e.iter().for_each(|x| drop(a.add(x)));
            Out::Same
        }
        Op::Subtract => {
            b.e.iter().for_each(|x| drop(a.del(x)));
            Out::Same
        }
        Op::Replace => {
            *a = S::of(&b.e, if b_set { b.ident } else { a.ident });
            Out::Same
        }
        Op::And => Out::Set(S::of(&a.part(&by_a, true), false), false),
        Op::Or => new([a.e.clone(), b.e.clone()].concat(), a.ident),
        Op::Minus => new(a.part(&by_a, false), a.ident),
        Op::Xor => Out::Set(S::of(&[a.part(&by_a, false), by_a.part(a, false)].concat(), a.ident), false),
        Op::Eq => Out::Bool(b_set && a.ident == b.ident && a.e.len() == b.e.len() && a.within(b)),
        Op::Sub => Out::Bool(a.within(b)),
        Op::Super => Out::Bool(b.within(a)),
        Op::PSub => Out::Bool(a.within(b) && a.e.len() < b.e.len()),
        Op::PSuper => Out::Bool(b.within(a) && a.e.len() > b.e.len()),
        Op::Cmp => match (a.within(b), b.within(a)) {
            _ if !b_set => Out::Nil,
            (true, true) => Out::Int(0),
            (true, false) => Out::Int(-1),
            (false, true) => Out::Int(1),
            _ => Out::Nil,
        },
        Op::Disjoint => Out::Bool(a.part(&by_a, true).is_empty()),
        Op::Intersect => Out::Bool(!a.part(&by_a, true).is_empty()),
        Op::DeleteIf | Op::KeepIf | Op::Select | Op::Reject => {
            let keep = matches!(op, Op::KeepIf | Op::Select);
            let n = a.e.len();
            let mut it = answers.iter();
            a.e.retain(|_| it.next().unwrap().truthy() == keep);
            if matches!(op, Op::Select | Op::Reject) && a.e.len() == n { Out::Nil } else { Out::Same }
        }
        Op::Collect => {
            *a = S::of(&answers, false);
            Out::Same
        }
        Op::Classify => {
            let mut l: Vec<(M, Vec<M>)> = vec![];
            for (x, c) in a.e.iter().zip(&answers) {
                match l.iter_mut().find(|(d, _)| d.eql(c)) {
                    Some((_, e)) => e.push(x.clone()),
                    None => l.push((c.clone(), vec![x.clone()])),
                }
            }
            Out::Classes(l)
        }
        Op::Identity => {
            a.ident = true;
            Out::Same
        }
        Op::IsIdentity => Out::Bool(a.ident),
    }
}

fn perform(vm: &mut Executor, a: Value, b: Value, b_list: Value, op: &Op) -> Result<Value> {
    let (f, args, block): (Method, Vec<Value>, bool) = match op {
        Op::Of => (s::set_index, vec![b_list], false),
        Op::Add(x) => (s::add, vec![make(x)], false),
        Op::AddQ(x) => (s::add_q, vec![make(x)], false),
        Op::Has(x) => (s::teq, vec![make(x)], false),
        Op::Delete(x) => (s::delete, vec![make(x)], false),
        Op::DeleteQ(x) => (s::delete_q, vec![make(x)], false),
        Op::Size => (s::size, vec![], false),
        Op::Empty => (s::empty_, vec![], false),
        Op::Clear => (s::clear, vec![], false),
        Op::Each => (s::each, vec![], true),
        Op::ToA => (s::to_a, vec![], false),
        Op::Dup => (s::dup, vec![], false),
        Op::Merge => (s::merge, vec![Value::array_from_vec(vec![b])], false),
        Op::Subtract => (s::subtract, vec![b], false),
        Op::Replace => (s::replace, vec![b], false),
        Op::And => (s::intersection, vec![b], false),
        Op::Or => (s::union_, vec![b], false),
        Op::Minus => (s::difference, vec![b], false),
        Op::Xor => (s::symmetric_difference, vec![b], false),
        Op::Eq => (s::eq, vec![b], false),
        Op::Sub => (s::subset_, vec![b], false),
        Op::Super => (s::superset_, vec![b], false),
        Op::PSub => (s::proper_subset_, vec![b], false),
        Op::PSuper => (s::proper_superset_, vec![b], false),
        Op::Cmp => (s::spaceship, vec![b], false),
        Op::Disjoint => (s::disjoint_, vec![b], false),
        Op::Intersect => (s::intersect_, vec![b], false),
        Op::DeleteIf => (s::delete_if, vec![], true),
        Op::KeepIf => (s::keep_if, vec![], true),
        Op::Select => (s::select_, vec![], true),
        Op::Reject => (s::reject_, vec![], true),
        Op::Collect => (s::collect_, vec![], true),
        Op::Classify => (s::classify, vec![], true),
        Op::Identity => (s::compare_by_identity, vec![], false),
        Op::IsIdentity => (s::compare_by_identity_q, vec![], false),
    };
    call_in(vm, f, a, &args, block)
}

fn judge(got: Result<Value>, a: Value, want: &Out, mode: bool) -> R {
    let v = match (got, want) {
        (Err(e), Out::Raised(x)) => {
            same!(&e, x, "what was raised");
            return Ok(());
        }
        (Err(e), _) => fail!("raised {e:?}, expected {want:?}"),
        (Ok(v), _) => v,
    };
    let id = |x: Value| v.id() == x.id();
    match want {
        Out::Raised(e) => fail!("did not raise {e:?}"),
        Out::Same => ensure!(id(a), "not the receiver"),
        Out::Nil => ensure!(id(Value::nil()), "not nil but {v:?}"),
        Out::Bool(b) => ensure!(id(Value::bool(*b)), "not {b} but {v:?}"),
        Out::Int(i) => ensure!(id(Value::integer(*i)), "not {i} but {v:?}"),
        Out::List(l) => {
            let Some(g) = v.try_array_ty() else { fail!("not a list") };
            let got: Vec<M> = g.iter().map(|v| read(*v)).collect();
            ensure!(got.len() == l.len() && got.iter().zip(l).all(|(x, y)| alike(x, y, mode)), "{got:?}, expected {l:?}");
        }
        Out::Set(m, ordered) => {
            ensure!(!id(a), "the receiver itself");
            holds("the result", v, m, *ordered)?;
        }
        Out::Classes(l) => {
            let Some(h) = v.try_hash_ty() else { fail!("not a hash") };
            let got: Vec<(M, Value)> = h.iter().map(|(k, v)| (read(k), v)).collect();
            ensure!(got.len() == l.len(), "{} classes, expected {l:?}", got.len());
            for ((k, e), (c, m)) in got.iter().zip(l) {
                ensure!(k.eql(c), "class {k:?}, expected {c:?}");
                holds("a class", *e, &S::of(m, false), true)?;
            }
        }
    }
    Ok(())
}

fn any_op(src: &mut Src, x: M) -> Op {
    match src.below(36) {
        0 => Op::Of,
        1 | 2 => Op::Add(x),
        3 => Op::AddQ(x),
        4 => Op::Has(x),
        5 => Op::Delete(x),
        6 => Op::DeleteQ(x),
        7 => Op::Size,
        8 => Op::Empty,
        9 => Op::Clear,
        10 => Op::Each,
        11 => Op::ToA,
        12 => Op::Dup,
        13 => Op::Merge,
        14 => Op::Subtract,
        15 => Op::Replace,
        16 => Op::And,
        17 => Op::Or,
        18 => Op::Minus,
        19 => Op::Xor,
        20 => Op::Eq,
        21 => Op::Sub,
        22 => Op::Super,
        23 => Op::PSub,
        24 => Op::PSuper,
        25 => Op::Cmp,
        26 => Op::Disjoint,
        27 => Op::Intersect,
        28 => Op::DeleteIf,
        29 => Op::KeepIf,
        30 => Op::Select,
        31 => Op::Reject,
        32 => Op::Collect,
        33 => Op::Classify,
        34 => Op::Identity,
        _ => Op::IsIdentity,
    }
}

struct Pool2(Vec<M>);
impl Pool2 {
    fn new(src: &mut Src) -> Pool2 {
        let mut all: Vec<M> = vec![M::Nil, M::T, M::F];
        all.extend((0..5).map(M::Int));
        all.extend((0..2).map(M::Sym));
        for n in 1..=12 {
            all.push(M::Obj { n, group: src.below(7) });
        }
        for n in 13..=20 {
            all.push(M::Str { n, text: b'a' + src.below(4) as u8, frozen: src.bool() });
        }
        Pool2(all)
    }
    fn any(&self, src: &mut Src) -> M {
        self.0[src.usize(self.0.len())].clone()
    }
    fn list(&self, src: &mut Src) -> Vec<M> {
        (0..src.pick(&[0usize, 1, 2, 3, 4, 5, 7, 9, 12, 20])).map(|_| self.any(src)).collect()
    }
    /// Another list, which may have much in common with one.
    fn other(&self, src: &mut Src, l: &[M]) -> Vec<M> {
        if src.bool() {
            return self.list(src);
        }
        let mut o: Vec<M> = l.iter().filter(|_| !src.chance(1, 6)).cloned().collect();
        if src.chance(1, 3) {
            o.push(self.any(src));
        }
        if src.bool() {
            o.reverse();
        }
        o
    }
}

fn rows(src: &mut Src, cx: &mut Cx) -> R {
    fresh();
    let p = Pool2::new(src);
    let l = p.list(src);
    let mut a = S::of(&l, src.chance(1, 4));
    a.frozen = src.chance(1, 20);
    let mut vm = quiet();
    let av = set_value(&mut vm, &a);
    note!(cx, "a = {a:?}");
    let mut n = 0;
    while n < 8 && src.more(4) {
        n += 1;
        // what a method is given is a set of its own, a list, or the receiver
        let kind = src.weighted(&[6, 3, 1]);
        let l = p.other(src, &a.e);
        let (b, b_set) = match kind {
            0 => (S::of(&l, if src.chance(1, 8) { !a.ident } else { a.ident }), true),
            1 => (S { e: l, ..S::default() }, false),
            _ => (a.clone(), true),
        };
        let x = if src.chance(1, 3) && !a.e.is_empty() { a.e[src.usize(a.e.len())].clone() } else { p.any(src) };
        let mut op = any_op(src, x);
        // how sets that compare differently compare with each other is left open
        if b_set && a.ident != b.ident && matches!(op, Op::Cmp | Op::Disjoint | Op::Intersect | Op::Sub | Op::Super | Op::PSub | Op::PSuper) {
            op = Op::Eq;
        }
        let l = list_value(&mut vm, &b.e);
        let bv = match kind {
            0 => set_value(&mut vm, &b),
            1 => l,
            _ => av,
        };
        note!(cx, "{op:?} with {}{:?}", if b_set { "the set " } else { "" }, b.e);
        let raising = !matches!(op, Op::DeleteIf | Op::KeepIf | Op::Select | Op::Reject);
        let steps = (0..src.below(12)).map(|_| Step { changes: vec![], collect: src.chance(1, 4), raise: raising && src.chance(1, 30), answer: answers2(src, &p) });
        let mut script = Script { steps: steps.collect(), ..Script::default() };
        vm.script = script.clone();
        if a.e.len() >= 2 && b.e.len() >= 2 {
            cx.nontrivial();
        }
        let ident = a.ident;
        // a set that is emptied and filled with its own elements needs them once more
        let want = expect(&mut a, &b, b_set, &mut script, &op);
        // collections strike while the method asks elements for `hash` and `eql?`
        vm.key_period = src.pick(&[0u64, 0, 1, 2, 3]);
        let got = match pbt::catch(|| perform(&mut vm, av, bv, l, &op)) {
            Ok(r) => r,
            Err(e) => fail!("{op:?} ended with a panic: {e}"),
        };
        vm.key_period = 0;
        judge(got, av, &want, ident).map_err(|e| format!("{op:?}: {e}"))?;
        ensure!(vm.script.log == script.log, "{op:?} asked {:?}, expected {:?}", vm.script.log, script.log);
        ensure!(vm.temp.is_empty(), "{op:?} leaves values put aside");
        holds(&format!("the receiver after {op:?}"), av, &a, true)?;
        if kind == 0 {
            holds(&format!("the argument after {op:?}"), bv, &b, true)?;
        }
    }
    // equal sets have equal digests, in whatever order
    let mut e = a.e.clone();
    if src.bool() {
        e.reverse();
    }
    let changed = src.chance(1, 3) && !e.is_empty();
    if changed {
        e.pop();
    }
    let o = set_value(&mut vm, &S::of(&e, a.ident));
    let (x, y) = (call_in(&mut vm, s::set_hash, av, &[], false), call_in(&mut vm, s::set_hash, o, &[], false));
    let (Ok(x), Ok(y)) = (x, y) else { fail!("hash raised") };
    same!(x.id() == y.id(), !changed, "whether the digests of {:?} and {e:?} are the same", a.e);
    Ok(())
}

/// Blocks remove elements of the receiver and collect: what they are handed was there, nothing
/// that was removed comes back, and no memory that was freed is read.
fn unruly(src: &mut Src, cx: &mut Cx) -> R {
    fresh();
    let p = Pool2::new(src);
    let l = p.list(src);
    let a = S::of(&l, src.chance(1, 4));
    let mut vm = quiet();
    let av = set_value(&mut vm, &a);
    // only the receiver holds its elements
    vm.hashes = [av, av];
    let op = src.pick(&[0usize, 1, 2, 3, 4, 5, 6]);
    let op = [Op::Each, Op::DeleteIf, Op::KeepIf, Op::Select, Op::Reject, Op::Collect, Op::Classify][op].clone();
    let steps: Vec<Step> = (0..src.below(8))
        .map(|_| {
            let changes = (0..src.below(3)).map(|_| match src.below(5) {
                0 => Change::Clear(0),
                1 => Change::Shift(0),
                _ if a.e.is_empty() => Change::Shift(0),
                _ => Change::Delete(0, a.e[src.usize(a.e.len())].clone()),
            });
            Step { changes: changes.collect(), collect: src.chance(3, 4), raise: src.chance(1, 30), answer: answers2(src, &p) }
        })
        .collect();
    note!(cx, "{op:?} of {a:?} with {steps:?}");
    vm.script = Script { steps, ..Script::default() };
    vm.key_period = src.pick(&[0u64, 0, 1, 2, 3]);
    let got = match pbt::catch(|| perform(&mut vm, av, av, av, &op)) {
        Ok(r) => r,
        Err(e) => fail!("{op:?} ended with a panic: {e}"),
    };
    vm.key_period = 0;
    ensure!(vm.temp.is_empty(), "{op:?} leaves values put aside");
    let there = |x: &M| a.e.iter().any(|y| alike(x, y, a.ident));
    if vm.script.log.len() >= 2 {
        cx.nontrivial();
    }
    for (_, args) in &vm.script.log {
        ensure!(args.iter().all(there), "{op:?} hands out {args:?}, which {:?} does not have", a.e);
    }
    if !matches!(op, Op::Collect) {
        let now = elements(av);
        ensure!(now.iter().all(there), "{op:?} leaves {now:?} of {:?}", a.e);
    }
    if let (Ok(v), Op::Classify) = (got, &op) {
        for (k, e) in v.as_hash().iter() {
            read(k);
            let e = elements(e);
            ensure!(e.iter().all(there), "{op:?} puts {e:?} in a class");
        }
    }
    Ok(())
}

fn answers2(src: &mut Src, p: &Pool2) -> M {
    match src.below(4) {
        0 => M::F,
        1 => M::Nil,
        2 => M::T,
        _ => p.any(src),
    }
}

/// A set in which sets may be, down to some depth, and its elements without them.
fn nested(src: &mut Src, p: &Pool2, vm: &mut Executor, deep: u32, all: &mut Vec<Value>, out: &mut Vec<M>) -> (Value, bool) {
    let g = &mut Globals { store: Store };
    let v = Value::hash_with_class_and_default(SET_CLASS, Value::nil());
    vm.held.push(v);
    all.push(v);
    let mut deeper = false;
    for _ in 0..src.below(5) {
        if deep < 3 && src.chance(1, 3) {
            let (w, _) = nested(src, p, vm, deep + 1, all, out);
            deeper = true;
            v.as_hash().insert(w, Value::bool(true), vm, g).unwrap();
        } else {
            let m = p.any(src);
            v.as_hash().insert(make(&m), Value::bool(true), vm, g).unwrap();
            out.push(m);
        }
    }
    (v, deeper)
}

fn flat(src: &mut Src, cx: &mut Cx) -> R {
    fresh();
    let p = Pool2::new(src);
    let mut vm = quiet();
    let g = &mut Globals { store: Store };
    let (mut all, mut out) = (vec![], vec![]);
    let (v, deeper) = nested(src, &p, &mut vm, 0, &mut all, &mut out);
    note!(cx, "the elements in order {out:?}, {} sets", all.len());
    let want = S::of(&out, false);
    if deeper && all.len() > 2 && want.e.len() < out.len() {
        cx.nontrivial();
    }
    // an empty set beside another is not an element
    let mut all = vec![v];
    let mut i = 0;
    while i < all.len() {
        all.extend(all[i].as_hash().iter().map(|(k, _)| k).filter(|k| k.is_kind_of(&Store, SET_CLASS)).collect::<Vec<_>>());
        i += 1;
    }
    let inner = all.len() > 1 && src.chance(1, 8);
    if inner {
        // one of them holds a set that holds it
        let at = all[src.range(1, all.len() - 1)];
        note!(cx, "and one that holds the whole");
        at.as_hash().insert(v, Value::bool(true), &mut vm, g).unwrap();
        for f in [s::flatten as Method, s::flatten_] {
            let n = v.as_hash().len();
            same!(call_in(&mut vm, f, v, &[], false).map(|_| ()), Err(E::Argument), "flattening a set that holds itself");
            same!(v.as_hash().len(), n, "size of a set that cannot be flattened");
        }
        return Ok(());
    }
    let plain = match call_in(&mut vm, s::flatten, v, &[], false) {
        Ok(w) => w,
        Err(e) => fail!("flatten raised {e:?}"),
    };
    vm.held.push(plain);
    holds("flatten", plain, &want, true)?;
    ensure!(plain.id() != v.id(), "flatten gives the receiver");
    let r = call_in(&mut vm, s::flatten_, v, &[], false).map(|w| w.id());
    same!(r, Ok(if deeper { v.id() } else { Value::nil().id() }), "what flatten! gives");
    holds("after flatten!", v, &want, true)
}

pub const PROP: Prop = Prop {
    id: "C58",
    rule: "a method called on a set of two elements or more with another such set or list (rows); nested sets with an element more than once (flat)",
    assumptions: &[
        "values, calls and blocks are stand-ins; the hash a set is made of and the methods of sets are the real ones",
        "code that changes a set while it is worked on, the order of & and ^, and comparisons of sets of which only one compares by identity are left open",
    ],
    level: "exploration",
    suites: &[Suite { name: "rows", cases: 400_000, run: rows }, Suite { name: "flat", cases: 150_000, run: flat }, Suite { name: "unruly", cases: 200_000, run: unruly }],
    known: &[],
};
