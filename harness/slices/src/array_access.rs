// Reading and changing an array by position, against a list.

/// An argument of a call.
#[derive(Clone, Debug)]
enum Arg {
    Int(i64),
    El(M),
    /// From, to, and whether the end is left out.
    Span(Option<i64>, Option<i64>, bool),
    /// The array itself.
    Me,
    /// Arguments collected into one array.
    Rest(Vec<Arg>),
}

impl Arg {
    fn value(&self, me: Value) -> Value {
        match self {
            Arg::Int(i) => Value::integer(*i),
            Arg::El(m) => build(m),
            Arg::Span(b, e, x) => {
                let end = |v: &Option<i64>| v.map_or(Value::nil(), Value::integer);
                Value::range(end(b), end(e), *x)
            }
            Arg::Me => me,
            Arg::Rest(v) => Value::array_from_vec(v.iter().map(|a| a.value(me)).collect()),
        }
    }
    fn int(&self) -> i64 {
        match self {
            Arg::Int(i) => *i,
            _ => unreachable!(),
        }
    }
    /// The element it is, for a list that looks like `me`.
    fn el(&self, me: &[M]) -> M {
        match self {
            Arg::Int(i) => n(*i),
            Arg::El(m) => m.clone(),
            Arg::Me => A(me.to_vec()),
            _ => unreachable!(),
        }
    }
    /// The elements it stands for.
    fn els(&self, me: &[M]) -> Vec<M> {
        match self {
            Arg::Rest(v) => v.iter().map(|a| a.el(me)).collect(),
            _ => match self.el(me) {
                A(v) => v,
                m => vec![m],
            },
        }
    }
}

/// What a call gives.
#[derive(Clone, Debug, PartialEq)]
enum Gives {
    Me,
    Val(M),
}
/// What went wrong: a kind of error, or any.
type No = Option<Kind>;

/// No array can hold that many.
const TOO_MANY: i128 = 1 << 59;

fn position(src: &mut Src, len: usize) -> i64 {
    let l = len as i64;
    match src.weighted(&[10, 6, 6, 1]) {
        0 => src.range(0, 9) as i64 - 3,
        1 => l + src.range(0, 6) as i64 - 3,
        2 => -l + src.range(0, 6) as i64 - 3,
        _ => src.pick(&[
            1 << 60,
            (1 << 62) - 1,
            -(1 << 62),
            (1 << 61) + 3,
            i64::MAX,
            i64::MAX - 1,
            i64::MIN,
            i64::MIN + 1,
        ]),
    }
}

thread_local! {
    /// Whether most elements are to be on the heap.
    static HEAPY: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn simple(src: &mut Src) -> M {
    if HEAPY.get() && src.chance(2, 3) {
        return words(src);
    }
    match src.weighted(&[8, 3, 2]) {
        0 => n(src.below(7) as i64),
        1 => N,
        _ => S(src.pick(&["a", "b", ""]).to_string()),
    }
}

fn list(src: &mut Src, max: usize, el: fn(&mut Src) -> M) -> Vec<M> {
    let k = src.len(max);
    (0..k).map(|_| el(src)).collect()
}

fn span(src: &mut Src, len: usize) -> Arg {
    let b = (!src.chance(1, 8)).then(|| position(src, len));
    let e = (!src.chance(1, 6)).then(|| position(src, len));
    Arg::Span(b, e, src.bool())
}

/// Where a range lies in a list: `None` when it starts outside.
fn resolve(a: &Arg, len: usize, clamp: bool) -> Option<(i128, i128)> {
    let Arg::Span(b, e, x) = a else { unreachable!() };
    let len = len as i128;
    let mut beg = b.unwrap_or(0) as i128;
    let mut end = e.unwrap_or(-1) as i128;
    if beg < 0 {
        beg += len;
        if beg < 0 {
            return None;
        }
    }
    if end < 0 {
        end += len;
    }
    if !(*x && e.is_some()) {
        end += 1;
    }
    if clamp {
        if beg > len {
            return None;
        }
        end = end.min(len);
    }
    Some((beg, (end - beg).max(0)))
}

fn splice(me: &mut Vec<M>, beg: i128, len: i128, with: Vec<M>) -> std::result::Result<(), No> {
    let l = me.len() as i128;
    if beg + with.len() as i128 > TOO_MANY {
        return Err(None);
    }
    if beg >= l {
        me.resize(beg as usize, N);
        me.extend(with);
    } else {
        let end = (beg + len).min(l);
        me.splice(beg as usize..end as usize, with);
    }
    Ok(())
}

struct Step {
    name: &'static str,
    f: Method,
    args: Vec<Arg>,
}

const READS: &[(&str, Method)] = &[
    ("[]", a::index),
    ("first", a::first),
    ("last", a::last),
    ("take", a::take),
    ("drop", a::drop),
    ("fetch", a::fetch),
    ("size", a::size),
    ("empty?", a::empty),
    ("reverse", a::reverse),
    ("rotate", a::rotate),
    ("compact", a::compact),
    ("include?", a::include_),
    ("find_index", a::find_index),
    ("count", a::count),
];
const WRITES: &[(&str, Method)] = &[
    ("[]=", a::index_assign),
    ("push", a::push),
    ("<<", a::shl),
    ("pop", a::pop),
    ("shift", a::shift),
    ("unshift", a::unshift),
    ("insert", a::insert),
    ("concat", a::concat),
    ("slice!", a::slice_),
    ("delete_at", a::delete_at),
    ("delete", a::delete),
    ("clear", a::clear),
    ("replace", a::replace),
    ("fill", a::fill),
    ("reverse!", a::reverse_),
    ("rotate!", a::rotate_),
    ("compact!", a::compact_),
];

fn step(src: &mut Src, len: usize) -> Step {
    let (name, f) = if src.chance(1, 3) {
        READS[src.usize(READS.len())]
    } else {
        WRITES[src.weighted(&[12, 4, 2, 3, 3, 3, 4, 3, 6, 2, 2, 1, 2, 5, 1, 2, 1])]
    };
    let many = |src: &mut Src, max| Arg::Rest(list(src, max, simple).into_iter().map(Arg::El).collect());
    let batch = |src: &mut Src| {
        if src.chance(1, 6) { Arg::Me } else { Arg::El(A(list(src, 7, simple))) }
    };
    let args = match name {
        "[]" | "slice!" => match src.below(3) {
            0 => vec![Arg::Int(position(src, len))],
            1 => vec![Arg::Int(position(src, len)), Arg::Int(position(src, len))],
            _ => vec![span(src, len)],
        },
        "[]=" => match src.below(5) {
            0 => vec![Arg::Int(position(src, len)), Arg::El(simple(src))],
            1 => vec![Arg::Int(position(src, len)), Arg::Int(position(src, len)), Arg::El(simple(src))],
            2 => vec![Arg::Int(position(src, len)), Arg::Int(position(src, len)), batch(src)],
            3 => vec![span(src, len), Arg::El(simple(src))],
            _ => vec![span(src, len), batch(src)],
        },
        "first" | "last" | "pop" | "shift" | "rotate" | "rotate!" if src.bool() => vec![],
        "first" | "last" | "pop" | "shift" | "rotate" | "rotate!" | "take" | "drop" | "delete_at" => {
            vec![Arg::Int(position(src, len))]
        }
        "fetch" => {
            let i = Arg::Int(position(src, len));
            if src.bool() { vec![i] } else { vec![i, Arg::El(simple(src))] }
        }
        "include?" | "find_index" | "delete" | "<<" => vec![Arg::El(simple(src))],
        "count" => {
            if src.bool() { vec![] } else { vec![Arg::El(simple(src))] }
        }
        "push" | "unshift" => vec![many(src, 7)],
        "insert" => vec![Arg::Int(position(src, len)), many(src, 4)],
        "concat" => {
            let k = src.len(3);
            vec![Arg::Rest((0..k).map(|_| batch(src)).collect())]
        }
        "replace" => vec![batch(src)],
        "fill" => {
            let v = Arg::El(simple(src));
            match src.below(4) {
                0 => vec![v],
                1 => vec![v, Arg::Int(position(src, len))],
                2 => vec![v, Arg::Int(position(src, len)), Arg::Int(position(src, len))],
                _ => vec![v, span(src, len)],
            }
        }
        _ => vec![],
    };
    // Whether filling nothing beyond the end brings the array up to there is left open.
    let nothing = name == "fill"
        && match &args[1..] {
            [Arg::Int(i), Arg::Int(0)] => *i > len as i64,
            [range @ Arg::Span(..)] => resolve(range, len, false).is_some_and(|(b, k)| k == 0 && b > len as i128),
            _ => false,
        };
    let args = if nothing { args[..1].to_vec() } else { args };
    Step { name, f, args }
}

/// What the list makes of a step.
fn follow(me: &mut Vec<M>, s: &Step) -> std::result::Result<Gives, No> {
    use Gives::*;
    let len = me.len();
    let l = len as i128;
    let at = |i: i64| {
        let i = i as i128;
        let i = if i < 0 { i + l } else { i };
        (i >= 0).then_some(i)
    };
    let within = |i: i64| at(i).filter(|i| *i < l).map(|i| i as usize);
    let cut = |me: &[M], beg: i128, n: i128| A(me[beg as usize..(beg + n).min(l) as usize].to_vec());
    let amount = |i: i64| {
        if i < 0 { Err(Some(Kind::Argument)) } else { Ok((i as i128).min(l) as usize) }
    };
    let by = |i: i64| if len == 0 { 0 } else { (i as i128).rem_euclid(l) as usize };
    let args = &s.args;
    Ok(match s.name {
        "[]" | "slice!" => {
            let place = match args.as_slice() {
                [Arg::Int(i)] => {
                    let Some(i) = within(*i) else { return Ok(Val(N)) };
                    let m = if s.name == "[]" { me[i].clone() } else { me.remove(i) };
                    return Ok(Val(m));
                }
                [Arg::Int(i), Arg::Int(n)] => at(*i).filter(|i| *i <= l && *n >= 0).map(|i| (i, *n as i128)),
                [range] => resolve(range, len, true),
                _ => unreachable!(),
            };
            let Some((beg, n)) = place else { return Ok(Val(N)) };
            let res = cut(me, beg, n);
            if s.name == "slice!" {
                me.drain(beg as usize..(beg + n).min(l) as usize);
            }
            Val(res)
        }
        "[]=" => {
            let v = args.last().unwrap();
            match &args[..args.len() - 1] {
                [Arg::Int(i)] => {
                    let i = at(*i).ok_or(Some(Kind::Index))?;
                    splice(me, i, 1, vec![v.el(&[])])?;
                    Val(v.el(&[]))
                }
                place => {
                    let (beg, n) = match place {
                        [Arg::Int(i), Arg::Int(n)] => {
                            if *n < 0 {
                                return Err(Some(Kind::Index));
                            }
                            (at(*i).ok_or(Some(Kind::Index))?, *n as i128)
                        }
                        [range] => resolve(range, len, false).ok_or(Some(Kind::Range))?,
                        _ => unreachable!(),
                    };
                    let given = v.el(me);
                    let with = v.els(me);
                    splice(me, beg, n, with)?;
                    if matches!(v, Arg::Me) { Me } else { Val(given) }
                }
            }
        }
        "first" | "last" | "take" | "drop" if !args.is_empty() => {
            let k = amount(args[0].int())?;
            Val(A(match s.name {
                "first" | "take" => me[..k].to_vec(),
                "last" => me[len - k..].to_vec(),
                _ => me[k..].to_vec(),
            }))
        }
        "first" => Val(me.first().cloned().unwrap_or(N)),
        "last" => Val(me.last().cloned().unwrap_or(N)),
        "pop" | "shift" if !args.is_empty() => {
            let k = amount(args[0].int())?;
            Val(A(if s.name == "pop" { me.split_off(len - k) } else { me.drain(..k).collect() }))
        }
        "pop" => Val(me.pop().unwrap_or(N)),
        "shift" => Val(if len == 0 { N } else { me.remove(0) }),
        "fetch" => match (within(args[0].int()), args.get(1)) {
            (Some(i), _) => Val(me[i].clone()),
            (None, Some(d)) => Val(d.el(&[])),
            (None, None) => return Err(Some(Kind::Index)),
        },
        "size" => Val(n(len as i64)),
        "empty?" => Val(B(len == 0)),
        "reverse" => Val(A(me.iter().rev().cloned().collect())),
        "reverse!" => {
            me.reverse();
            Me
        }
        "rotate" | "rotate!" => {
            let mut v = me.clone();
            v.rotate_left(by(args.first().map_or(1, Arg::int)));
            if s.name == "rotate" {
                return Ok(Val(A(v)));
            }
            *me = v;
            Me
        }
        "compact" => Val(A(me.iter().filter(|m| **m != N).cloned().collect())),
        "compact!" => {
            me.retain(|m| *m != N);
            if me.len() == len { Val(N) } else { Me }
        }
        "include?" => Val(B(me.contains(&args[0].el(&[])))),
        "find_index" => {
            let i = me.iter().position(|m| *m == args[0].el(&[]));
            Val(i.map_or(N, |i| n(i as i64)))
        }
        "count" => Val(n(match args.first() {
            None => len as i64,
            Some(v) => me.iter().filter(|m| **m == v.el(&[])).count() as i64,
        })),
        "delete" => {
            let v = args[0].el(&[]);
            me.retain(|m| *m != v);
            Val(if me.len() == len { N } else { v })
        }
        "delete_at" => Val(within(args[0].int()).map_or(N, |i| me.remove(i))),
        "push" => {
            me.extend(args[0].els(&[]));
            Me
        }
        "<<" => {
            me.push(args[0].el(&[]));
            Me
        }
        "unshift" => {
            me.splice(0..0, args[0].els(&[]));
            Me
        }
        "insert" => {
            let v = args[1].els(&[]);
            if v.is_empty() {
                return Ok(Me);
            }
            let i = args[0].int() as i128;
            let i = if i < 0 { i + l + 1 } else { i };
            if i < 0 {
                return Err(Some(Kind::Index));
            }
            splice(me, i, 0, v)?;
            Me
        }
        "concat" => {
            let Arg::Rest(lists) = &args[0] else { unreachable!() };
            let more: Vec<M> = lists.iter().flat_map(|a| a.els(me)).collect();
            me.extend(more);
            Me
        }
        "replace" => {
            let v = args[0].els(me);
            *me = v;
            Me
        }
        "clear" => {
            me.clear();
            Me
        }
        "fill" => {
            let (beg, k) = match &args[1..] {
                [] => (0, l),
                [Arg::Int(i)] => {
                    let beg = at(*i).unwrap_or(0);
                    (beg, l - beg)
                }
                [Arg::Int(i), Arg::Int(k)] => (at(*i).unwrap_or(0), *k as i128),
                [range] => resolve(range, len, false).ok_or(Some(Kind::Range))?,
                _ => unreachable!(),
            };
            if k < 0 {
                return Ok(Me);
            }
            if beg + k > TOO_MANY {
                return Err(None);
            }
            let (beg, end) = (beg as usize, (beg + k) as usize);
            if me.len() < end {
                me.resize(end, N);
            }
            for m in me.iter_mut().take(end).skip(beg) {
                *m = args[0].el(&[]);
            }
            Me
        }
        _ => unreachable!("{}", s.name),
    })
}

fn describe(s: &Step) -> String {
    let args: Vec<String> = s
        .args
        .iter()
        .map(|a| match a {
            Arg::Int(i) => i.to_string(),
            Arg::El(m) => format!("{m:?}"),
            a => format!("{a:?}"),
        })
        .collect();
    format!("{}({})", s.name, args.join(", "))
}

fn access(src: &mut Src, cx: &mut Cx) -> R {
    sweep_world();
    HEAPY.set(false);
    let mut me = list(src, 12, simple);
    let array = build(&A(me.clone()));
    let mut wrote = 0;
    src.begin();
    let mut steps = 0;
    while steps < 24 && src.more(6) {
        steps += 1;
        let s = step(src, me.len());
        let what = describe(&s);
        note!(cx, "{me:?}.{what}");
        let frozen = src.chance(1, 16);
        array.flags().unwrap().frozen.set(frozen);
        let before = me.clone();
        let mut want = follow(&mut me, &s);
        let writes = WRITES.iter().any(|w| w.0 == s.name);
        // Deleting what is not there, and asking for nothing to be inserted, changes nothing.
        let harmless = matches!(s.name, "delete" | "insert") && before == me;
        if frozen && writes && !(harmless && want.is_ok()) {
            // Whatever else is wrong with it, the list stays as it is.
            me = before.clone();
            want = Err(None);
        }
        if want.is_err() {
            me = before.clone();
        }
        let args: Vec<Option<Value>> = s.args.iter().map(|a| Some(a.value(array))).collect();
        let got = run(&what, || call_opt(s.f, array, args))?;
        array.flags().unwrap().frozen.set(false);
        match (got, want) {
            (Ok(v), Ok(Gives::Me)) => {
                ensure!(v.id() == array.id(), "{before:?}.{what}: gives {:?}, not the array itself", read(v))
            }
            (Ok(v), Ok(Gives::Val(m))) => {
                ensure!(m == N || v.id() != array.id(), "{before:?}.{what}: gives the array itself");
                same!(read(v), m, "{before:?}.{what}")
            }
            (Err(e), Err(None)) => cx.label("refused"),
            (Err(e), Err(Some(k))) => {
                same!(e.kind, k, "{before:?}.{what}: error");
                cx.label("refused");
            }
            (Ok(v), Err(k)) => {
                // Leaving a frozen array alone is as good as refusing.
                ensure!(frozen, "{before:?}.{what}: gives {:?}, expected an error ({k:?})", read(v));
            }
            (Err(e), Ok(g)) => {
                ensure!(frozen && harmless, "{before:?}.{what}: {:?} {}, expected {g:?}", e.kind, e.msg)
            }
        }
        same!(read(array), A(me.clone()), "the array after {before:?}.{what}");
        if before != me {
            wrote += 1;
        }
        if me.len() > 40 {
            break;
        }
    }
    src.end();
    if wrote > 0 {
        cx.nontrivial();
    }
    Ok(())
}

const C49: Prop = Prop {
    id: "C49",
    rule: "some step changed the elements",
    assumptions: &["heap objects and method dispatch are stand-ins; arrays and their methods are the real code"],
    level: "exploration",
    suites: &[Suite { name: "steps", cases: 800_000, run: access }],
    known: &[],
};
