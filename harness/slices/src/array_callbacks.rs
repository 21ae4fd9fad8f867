// Methods that ask other code - blocks, ==, eql?, hash, <=>, to_s - while that code changes the
// arrays they work on, or while memory is collected.

/// What the other code does to an array.
#[derive(Clone, Debug)]
enum Change {
    Clear,
    Pop(usize),
    Shift(usize),
    Push(Vec<M>),
    Unshift(Vec<M>),
    Replace(Vec<M>),
    Set(usize, M),
}
fn change(src: &mut Src) -> Change {
    let some = |src: &mut Src| {
        let k = src.pick(&[1usize, 2, 5, 40]);
        (0..k).map(|_| objects(src)).collect::<Vec<_>>()
    };
    match src.below(7) {
        0 => Change::Clear,
        1 => Change::Pop(src.range(1, 5)),
        2 => Change::Shift(src.range(1, 5)),
        3 => Change::Push(some(src)),
        4 => Change::Unshift(some(src)),
        5 => Change::Replace(list(src, 5, objects)),
        _ => Change::Set(src.below(6) as usize, objects(src)),
    }
}
impl Change {
    fn brings(&self) -> Vec<M> {
        match self {
            Change::Push(v) | Change::Unshift(v) | Change::Replace(v) => v.clone(),
            Change::Set(_, m) => vec![m.clone()],
            _ => vec![],
        }
    }
    fn apply(&self, vm: &mut Executor, on: Value) {
        let mut go = |f: Method, args: &[Value]| {
            let _ = call_in(vm, f, on, args.iter().map(|v| Some(*v)).collect(), None);
        };
        let int = |n: &usize| Value::integer(*n as i64);
        match self {
            Change::Clear => go(a::clear, &[]),
            Change::Pop(n) => go(a::pop, &[int(n)]),
            Change::Shift(n) => go(a::shift, &[int(n)]),
            Change::Push(v) => go(a::push, &[vals(v)]),
            Change::Unshift(v) => go(a::unshift, &[vals(v)]),
            Change::Replace(v) => go(a::replace, &[vals(v)]),
            Change::Set(i, m) => go(a::index_assign, &[int(i), build(m)]),
        }
    }
    fn model(&self, v: &mut Vec<M>) {
        match self {
            Change::Clear => v.clear(),
            Change::Pop(n) => v.truncate(v.len().saturating_sub(*n)),
            Change::Shift(n) => drop(v.drain(..(*n).min(v.len()))),
            Change::Push(w) => v.extend(w.clone()),
            Change::Unshift(w) => drop(v.splice(0..0, w.clone())),
            Change::Replace(w) => *v = w.clone(),
            Change::Set(i, m) => {
                while v.len() <= *i {
                    v.push(N);
                }
                v[*i] = m.clone();
            }
        }
    }
}

/// How a method is called: with what besides the receiver.
#[derive(Clone, Copy, PartialEq)]
enum Form {
    Plain,
    /// Another array.
    Other,
    /// Other arrays, as a list of them.
    Rest,
    /// An element.
    Item,
    /// A separator.
    Sep,
    /// A method to send.
    Sym,
    Block,
    /// A block that is given two elements.
    Block2,
    /// Both.
    RestBlock,
    ItemBlock,
}
use Form::*;

const CALLS: &[(&str, Method, Form)] = &[
    ("==", a::eq, Other),
    ("eql?", a::eql, Other),
    ("<=>", a::cmp, Other),
    ("hash", a::hash, Plain),
    ("-", a::sub, Other),
    ("&", a::and, Other),
    ("|", a::or, Other),
    ("union", a::union, Rest),
    ("difference", a::difference, Rest),
    ("intersection", a::intersection, Rest),
    ("intersect?", a::intersect_, Other),
    ("uniq", a::uniq, Plain),
    ("uniq!", a::uniq_, Plain),
    ("uniq", a::uniq, Block),
    ("uniq!", a::uniq_, Block),
    ("join", a::join, Sep),
    ("sort", a::sort, Plain),
    ("sort!", a::sort_, Plain),
    ("sort", a::sort, Block2),
    ("sort!", a::sort_, Block2),
    ("sort_by", a::sort_by, Block),
    ("sort_by!", a::sort_by_, Block),
    ("min", a::min, Plain),
    ("max", a::max, Plain),
    ("minmax", a::minmax, Plain),
    ("min", a::min, Block2),
    ("max", a::max, Block2),
    ("minmax", a::minmax, Block2),
    ("zip", a::zip, RestBlock),
    ("product", a::product, RestBlock),
    ("fill", a::fill, Block),
    ("filter", a::filter, Block),
    ("reject", a::reject, Block),
    ("partition", a::partition, Block),
    ("filter!", a::filter_, Block),
    ("keep_if", a::keep_if, Block),
    ("reject!", a::reject_, Block),
    ("delete_if", a::delete_if, Block),
    ("all?", a::all_, Block),
    ("any?", a::any_, Block),
    ("detect", a::detect, Block),
    ("rfind", a::rfind, Block),
    ("find_index", a::find_index, Block),
    ("find_index", a::find_index, Item),
    ("count", a::count, Block),
    ("count", a::count, Item),
    ("include?", a::include_, Item),
    ("delete", a::delete, Item),
    ("delete", a::delete, ItemBlock),
    ("inject", a::inject, Block2),
    ("flat_map", a::flat_map, Block),
    ("sum", a::sum, Block),
    ("flatten", a::flatten, Plain),
    ("transpose", a::transpose, Plain),
];

fn everything(m: &M, out: &mut Vec<M>) {
    match m {
        A(v) => v.iter().for_each(|m| everything(m, out)),
        O(_) => out.push(m.clone()),
        _ => {}
    }
}

fn changes(src: &mut Src, cx: &mut Cx) -> R {
    sweep_world();
    let (name, f, form) = src.pick(CALLS);
    let deep = |src: &mut Src| if src.chance(1, 5) { A(list(src, 4, objects)) } else { objects(src) };
    let big = src.chance(1, 3);
    let mut x: Vec<M> = (0..src.len(if big { 30 } else { 7 })).map(|_| deep(src)).collect();
    let mut y: Vec<M> = (0..src.len(if big { 30 } else { 7 })).map(|_| deep(src)).collect();
    if matches!(name, "==" | "eql?" | "<=>") && src.chance(4, 5) {
        // Alike, so that there is more than one thing to compare.
        y = x.iter().map(|m| if let O(o) = m { O(o ^ 0x5500) } else { m.clone() }).collect();
    }
    if name == "transpose" || name == "product" {
        x.truncate(6);
        y.truncate(6);
    }
    let recv = vals(&x);
    // At times the argument is the receiver itself.
    let other = if src.chance(1, 8) { recv } else { vals(&y) };
    let item = build(&if src.bool() && !x.is_empty() { x[src.usize(x.len())].clone() } else { objects(src) });
    let plan: Vec<(usize, bool, Change)> =
        (0..src.range(1, 3)).map(|_| (src.below(8) as usize, src.chance(2, 3), change(src))).collect();
    let what = format!("{x:?}.{name} with {y:?}, {:?}, changing {plan:?}", read(item));
    note!(cx, "{what}");
    let mut known: Vec<M> = vec![];
    everything(&A(x.clone()), &mut known);
    everything(&A(y.clone()), &mut known);
    everything(&read(item), &mut known);
    plan.iter().for_each(|(_, _, c)| c.brings().iter().for_each(|m| everything(m, &mut known)));
    // The same, followed on lists.
    let (mut mx, mut my) = (x.clone(), y.clone());
    let aliased = other.id() == recv.id();
    let calls = std::rc::Rc::new(std::cell::Cell::new(0usize));
    let act = {
        let (plan, calls) = (plan.clone(), calls.clone());
        move |vm: &mut Executor| {
            let k = calls.get();
            calls.set(k + 1);
            for (at, mine, c) in &plan {
                if *at == k {
                    c.apply(vm, if *mine { recv } else { other });
                }
            }
        }
    };
    let hook: std::rc::Rc<RefCell<dyn FnMut(&mut Executor)>> = std::rc::Rc::new(RefCell::new(act.clone()));
    set_hook(Some(hook));
    let rest = Value::array_from_vec(if src.bool() { vec![other] } else { vec![other, vals(&y)] });
    let answers: Vec<bool> = (0..60).map(|_| src.chance(2, 3)).collect();
    let mut seen: Vec<M> = vec![];
    let got = {
        let blocks = |args: Vec<Option<Value>>, seen: &mut Vec<M>| {
            call_with(f, recv, args, |vm, v| {
                fire(vm);
                let k = seen.len();
                seen.push(v.first().map_or(N, |v| read(*v)));
                Ok(match (form, name) {
                    (Block2, "inject") => v[1],
                    (Block2, _) => {
                        let keyed = |v: Value| if let O(o) = read(v) { key(o) } else { 1 };
                        Value::integer(keyed(v[0]) - keyed(v[1]))
                    }
                    (_, "fill" | "sort_by" | "sort_by!" | "uniq" | "uniq!" | "sum") => Value::integer(k as i64 / 2),
                    (_, "flat_map") => Value::array2(v[0], v[0]),
                    _ => Value::bool(answers[k % 60]),
                })
            })
        };
        run(&what, || match form {
            Plain => call(f, recv, &[]),
            Other => call(f, recv, &[other]),
            Rest => call(f, recv, &[rest]),
            Item => call(f, recv, &[item]),
            Sep => call(f, recv, &[Value::string(",")]),
            Sym => call(f, recv, &[Value::symbol(IdentId::get_id("+"))]),
            Block | Block2 => blocks(vec![], &mut seen),
            RestBlock => blocks(vec![Some(rest)], &mut seen),
            ItemBlock => blocks(vec![Some(item)], &mut seen),
        })
    };
    set_hook(None);
    let got = got?;
    let total = calls.get();
    let changed = plan.iter().any(|p| p.0 < total);
    if changed {
        cx.nontrivial();
    }
    // Nothing but what was there at some time.
    let mut all = vec![];
    let view = |v: Value| pbt::catch(|| read(v)).map_err(|e| format!("{what}: {e}"));
    let res = match &got {
        Ok(v) => Some(view(*v)?),
        Err(_) => None,
    };
    everything(&A(seen.clone()), &mut all);
    if let Some(r) = &res {
        everything(r, &mut all);
    }
    everything(&view(recv)?, &mut all);
    everything(&view(other)?, &mut all);
    for m in &all {
        ensure!(known.contains(m), "{what}: {m:?} was never there");
    }
    // Those that go from the first to the last element look at the array as it then is.
    let walk = matches!(
        (name, form),
        ("filter" | "reject" | "partition" | "all?" | "any?" | "detect" | "find_index" | "count" | "flat_map", Block)
            | ("inject", Block2)
    );
    if !walk {
        return Ok(());
    }
    let Some(res) = res else { fail!("{what}: {:?}", got.err()) };
    let mut step = 0;
    let mut go = |mx: &mut Vec<M>, my: &mut Vec<M>| {
        for (at, mine, c) in &plan {
            if *at == step {
                c.model(if *mine || aliased { mx } else { my });
            }
        }
        step += 1;
        answers[(step - 1) % 60]
    };
    let (mut yes, mut no, mut visited) = (vec![], vec![], vec![]);
    let mut i = 0;
    let mut stopped = None;
    let mut acc = N;
    while i < mx.len() {
        let m = mx[i].clone();
        if name == "inject" && i == 0 {
            acc = m;
            i += 1;
            continue;
        }
        visited.push(if name == "inject" { acc.clone() } else { m.clone() });
        let ans = go(&mut mx, &mut my);
        acc = m.clone();
        if ans { yes.push(m.clone()) } else { no.push(m.clone()) }
        let stop = match name {
            "any?" | "detect" | "find_index" => ans,
            "all?" => !ans,
            _ => false,
        };
        if stop {
            stopped = Some((i, m));
            break;
        }
        i += 1;
    }
    same!(seen, visited, "what the block of {what} is shown");
    let want = match name {
        "filter" => A(yes),
        "reject" => A(no),
        "partition" => A(vec![A(yes), A(no)]),
        "count" => n(yes.len() as i64),
        "any?" => B(stopped.is_some()),
        "all?" => B(stopped.is_none()),
        "detect" => stopped.map_or(N, |s| s.1),
        "find_index" => stopped.map_or(N, |s| n(s.0 as i64)),
        "flat_map" => A(visited.iter().flat_map(|m| [m.clone(), m.clone()]).collect()),
        _ => acc,
    };
    same!(res, want, "{what}");
    same!(read(recv), A(mx), "the receiver after {what}");
    cx.label("followed");
    Ok(())
}

const C51: Prop = Prop {
    id: "C51",
    rule: "the other code ran often enough to make at least one of its changes",
    assumptions: &["heap objects, strings and method dispatch are stand-ins; arrays, numbers and their methods are the real code"],
    level: "exploration",
    suites: &[Suite { name: "changes", cases: 1_200_000, run: changes }],
    known: &[],
};

/// The heap values an array holds.
fn heap_of(v: Value) -> Vec<u64> {
    v.as_array_inner().iter().filter(|v| !v.is_packed_value()).map(|v| v.id()).collect()
}

/// An array past its youth that has come to hold something it did not must be known for it.
fn noted(v: Value, before: &[u64], what: &str) -> R {
    let new = heap_of(v).iter().any(|id| !before.contains(id));
    ensure!(
        !new || v.flags().unwrap().remembered.get(),
        "{what}: the old array came to hold a new value and is not remembered"
    );
    Ok(())
}

/// One run of a call, collecting at the calls of other code that `when` says.
fn during(
    src_plan: &Plan,
    collecting: bool,
    what: &str,
) -> std::result::Result<(std::result::Result<M, Kind>, M), String> {
    sweep_world();
    let Plan { name, f, form, x, y, two, item, when, style, turns } = src_plan;
    let (name, f, form, style) = (*name, *f, *form, *style);
    let recv = hold(vals(x));
    let other = hold(if *turns { Value::object(CONVERTS << 8 | y.len() as u32) } else { vals(y) });
    let item = hold(build(item));
    recv.flags().unwrap().old.set(true);
    let held = heap_of(recv);
    let mut args = vec![other];
    if let Some(z) = two {
        args.push(vals(z));
    }
    let rest = hold(Value::array_from_vec(args));
    let sep = hold(Value::string(","));
    let calls = std::rc::Rc::new(std::cell::Cell::new(0usize));
    let trouble = std::rc::Rc::new(RefCell::new(None::<String>));
    let act = {
        let (calls, when, held, trouble, what) = (calls.clone(), when.clone(), held.clone(), trouble.clone(), what.to_string());
        move |vm: &mut Executor| {
            let k = calls.get();
            calls.set(k + 1);
            if let Err(e) = noted(recv, &held, &what) {
                trouble.borrow_mut().get_or_insert(e);
            }
            if collecting && when[k % when.len()] {
                collect(vm);
            }
        }
    };
    let hook: std::rc::Rc<RefCell<dyn FnMut(&mut Executor)>> = std::rc::Rc::new(RefCell::new(act));
    set_hook(Some(hook));
    let mut k = 0usize;
    let fresh = |k: usize| -> Value {
        let big = Value::bigint((BigInt::from(1u8) << 70) + BigInt::from(k as u64 * 7 % 5));
        match style {
            0 => big,
            1 => Value::array_from_vec(vec![big, Value::integer(1)]),
            _ => Value::string(format!("{}", k * 7 % 5)),
        }
    };
    let got = {
        let mut blocks = |args: Vec<Option<Value>>| {
            call_with(f, recv, args, |vm, v| {
                fire(vm);
                k += 1;
                Ok(match (form, name) {
                    (Block2, "inject") => Value::array2(v[0], v[1]),
                    (Block2, _) => {
                        let keyed = |v: Value| if let O(o) = read(v) { key(o) } else { 1 };
                        Value::bigint(BigInt::from(keyed(v[0]) - keyed(v[1])) << 70)
                    }
                    (_, "sum") => Value::bigint((BigInt::from(1u8) << 70) + BigInt::from(k as u64)),
                    (_, "fill" | "sort_by" | "sort_by!" | "uniq" | "uniq!" | "flat_map") => fresh(k),
                    _ => Value::bool(k * 7 % 5 < 3),
                })
            })
        };
        run(what, || match form {
            Plain => call(f, recv, &[]),
            Other => call(f, recv, &[other]),
            Rest => call(f, recv, &[rest]),
            Item => call(f, recv, &[item]),
            Sep => call(f, recv, &[sep]),
            Sym => call(f, recv, &[Value::symbol(IdentId::get_id("+"))]),
            Block | Block2 => blocks(vec![]),
            RestBlock => blocks(vec![Some(rest)]),
            ItemBlock => blocks(vec![Some(item)]),
        })
    };
    set_hook(None);
    let got = got?;
    if let Some(e) = trouble.borrow_mut().take() {
        return Err(e);
    }
    noted(recv, &held, what)?;
    let view = |v: Value| pbt::catch(|| read(v)).map_err(|e| format!("{what}: {e}"));
    let res = match got {
        Ok(v) => Ok(view(v)?),
        Err(e) => Err(e.kind),
    };
    Ok((res, view(recv)?))
}

struct Plan {
    name: &'static str,
    f: Method,
    form: Form,
    x: Vec<M>,
    y: Vec<M>,
    two: Option<Vec<M>>,
    item: M,
    when: Vec<bool>,
    style: u64,
    /// The argument is no array but turns into one.
    turns: bool,
}

fn collected(src: &mut Src, cx: &mut Cx) -> R {
    let (name, f, form) = if src.chance(1, 20) { ("inject", a::inject as Method, Sym) } else { src.pick(CALLS) };
    let deep = |src: &mut Src| match src.below(8) {
        0 => A(list(src, 4, objects)),
        1 => I((BigInt::from(1u8) << 70) + BigInt::from(src.below(3))),
        2 => words(src),
        _ => objects(src),
    };
    let el: fn(&mut Src) -> M = match (name, form) {
        ("inject", Sym) => lists,
        ("sort" | "sort!" | "min" | "max" | "minmax", _) => objects,
        _ => objects,
    };
    let big = src.chance(1, 2);
    let max = if big { 45 } else { 8 };
    let odd = !matches!(name, "sort" | "sort!" | "min" | "max" | "minmax" | "inject");
    let make = |src: &mut Src| -> Vec<M> { (0..src.len(max)).map(|_| if odd { deep(src) } else { el(src) }).collect() };
    let mut x = make(src);
    let mut y = make(src);
    if matches!(name, "==" | "eql?" | "<=>") {
        y = x.iter().map(|m| if let O(o) = m { O(o ^ 0x5500) } else { m.clone() }).collect();
    }
    if name == "product" || name == "inject" {
        x.truncate(6);
        y.truncate(6);
    }
    let item = if src.bool() && !x.is_empty() { x[src.usize(x.len())].clone() } else { objects(src) };
    let two = src.bool().then(|| list(src, 5, objects));
    let when = (0..src.range(1, 9)).map(|_| src.chance(2, 3)).collect::<Vec<_>>();
    let plan = Plan { name, f, form, x, y, two, item, when, style: src.below(3), turns: src.chance(1, 6) };
    let what = format!("{:?}.{name} with {:?}, {:?}, {:?}, turning {}, collecting at {:?}", plan.x, plan.y, plan.two, plan.item, plan.turns, plan.when);
    note!(cx, "{what}");
    let calm = during(&plan, false, &what)?;
    let busy = during(&plan, true, &what)?;
    let (rounds, freed) = FREED.with(|f| *f.borrow());
    if rounds > 0 {
        cx.nontrivial();
    }
    if freed > 0 {
        cx.label("something was freed");
    }
    same!(busy.0, calm.0, "{what}: gives");
    same!(busy.1, calm.1, "{what}: leaves");
    Ok(())
}

/// Elements that are put into an array past its youth.
fn barrier(src: &mut Src, cx: &mut Cx) -> R {
    sweep_world();
    HEAPY.set(true);
    let mut me = list(src, 12, simple);
    let array = build(&A(me.clone()));
    array.flags().unwrap().old.set(true);
    src.begin();
    let mut steps = 0;
    while steps < 12 && src.more(4) {
        steps += 1;
        let s = step(src, me.len());
        let what = format!("{me:?}.{}", describe(&s));
        note!(cx, "{what}");
        if follow(&mut me, &s).is_err() {
            break;
        }
        let before = heap_of(array);
        array.flags().unwrap().remembered.set(false);
        let args: Vec<Option<Value>> = s.args.iter().map(|a| Some(a.value(array))).collect();
        let _ = run(&what, || call_opt(s.f, array, args))?;
        if heap_of(array).iter().any(|id| !before.contains(id)) {
            cx.nontrivial();
        }
        noted(array, &before, &what)?;
        if me.len() > 40 {
            break;
        }
    }
    src.end();
    Ok(())
}

const C52: Prop = Prop {
    id: "C52",
    rule: "memory was collected during the call, or the array came to hold a new heap value",
    assumptions: &[
        "heap objects, strings, the collector and method dispatch are stand-ins; arrays and their methods are the real code",
        "a collection keeps the receivers and arguments of calls in progress, the temporary stack and what the program holds",
    ],
    level: "exploration",
    suites: &[
        Suite { name: "collected", cases: 300_000, run: collected },
        Suite { name: "barrier", cases: 150_000, run: barrier },
    ],
    known: &[],
};
