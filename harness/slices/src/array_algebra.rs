// Combining, reshaping, ordering and searching arrays, against lists.

/// Elements of many kinds, few enough to meet again.
fn mixed(src: &mut Src) -> M {
    match src.weighted(&[8, 2, 2, 3, 3, 2, 3]) {
        0 => n(src.below(5) as i64),
        1 => N,
        2 => F(src.pick(&[0.5, 1.0, 2.0, 3.5, 0.0])),
        3 => S(src.pick(&["a", "b", "ab", ""]).to_string()),
        4 => O(src.below(4) as u32 | (src.below(50) as u32) << 8),
        5 => I((BigInt::from(1u8) << 70) + BigInt::from(src.below(3))),
        _ => {
            let k = src.below(3) as usize;
            A((0..k).map(|_| mixed(src)).collect())
        }
    }
}
fn numbers(src: &mut Src) -> M {
    match src.weighted(&[8, 3, 1]) {
        0 => n(src.below(9) as i64 - 4),
        1 => F(src.pick(&[0.5, 1.0, 2.0, -3.5, 4.0])),
        _ => {
            let (a, b) = src.pick(&[(1, 2), (-3, 4), (5, 2), (7, 8)]);
            Q(a, b)
        }
    }
}
fn words(src: &mut Src) -> M {
    S(src.pick(&["a", "b", "ab", "", "ba", "aa"]).to_string())
}
fn objects(src: &mut Src) -> M {
    O(src.below(9) as u32 * 3 | (src.below(1000) as u32) << 8)
}
fn ints(src: &mut Src) -> M {
    n(src.below(9) as i64 - 4)
}
fn lists(src: &mut Src) -> M {
    let k = src.below(4) as usize;
    A((0..k).map(|_| ints(src)).collect())
}

/// How long lists are: mostly short, at times beyond what small tables and insertion sort take.
fn some(src: &mut Src, el: fn(&mut Src) -> M) -> Vec<M> {
    match src.weighted(&[8, 3, 1]) {
        0 => list(src, 6, el),
        1 => list(src, 24, el),
        _ => list(src, 70, el),
    }
}

fn has(v: &[M], m: &M) -> bool {
    v.iter().any(|x| eql(x, m))
}
fn once(v: &[M]) -> Vec<M> {
    let mut out: Vec<M> = vec![];
    for m in v {
        if !has(&out, m) {
            out.push(m.clone());
        }
    }
    out
}
fn flat(v: &[M], depth: i64, out: &mut Vec<M>) -> bool {
    let mut changed = false;
    for m in v {
        match m {
            A(w) if depth != 0 => {
                flat(w, depth - 1, out);
                changed = true;
            }
            _ => out.push(m.clone()),
        }
    }
    changed
}
fn joined(v: &[M], sep: &str) -> String {
    v.iter()
        .map(|m| match m {
            A(w) => joined(w, sep),
            m => text(m),
        })
        .collect::<Vec<_>>()
        .join(sep)
}

fn vals(v: &[M]) -> Value {
    Value::array_from_vec(v.iter().map(build).collect())
}

/// A call, what it ought to give, and whether the receiver stays as it was.
fn check(
    cx: &mut Cx,
    name: &str,
    f: Method,
    me: &[M],
    args: &[Value],
    want: std::result::Result<M, No>,
) -> R {
    let recv = vals(me);
    let what = format!("{me:?}.{name}({:?})", args.iter().map(|a| show(*a)).collect::<Vec<_>>());
    note!(cx, "{what}");
    let got = run(&what, || call(f, recv, args))?;
    match (got, want) {
        (Ok(v), Ok(m)) => same!(read(v), m, "{what}"),
        (Err(_), Err(None)) => {}
        (Err(e), Err(Some(k))) => same!(e.kind, k, "{what}: error"),
        (Ok(v), Err(k)) => fail!("{what}: {:?}, expected an error ({k:?})", read(v)),
        (Err(e), Ok(m)) => fail!("{what}: {:?} {}, expected {m:?}", e.kind, e.msg),
    }
    same!(read(recv), A(me.to_vec()), "the receiver after {what}");
    Ok(())
}
fn show(v: Value) -> String {
    match v.is_range() {
        Some(_) => "a range".into(),
        None if v.try_symbol().is_some() => format!(":{}", v.as_symbol()),
        None => format!("{:?}", read(v)),
    }
}

fn algebra(src: &mut Src, cx: &mut Cx) -> R {
    sweep_world();
    let el: fn(&mut Src) -> M = src.pick(&[mixed as fn(&mut Src) -> M, ints, objects]);
    let x = some(src, el);
    let y = some(src, el);
    let z = list(src, 5, el);
    let (vy, vz) = (vals(&y), vals(&z));
    let rest = |v: &[Value]| Value::array_from_vec(v.to_vec());
    let two = if src.bool() { vec![vy, vz] } else { vec![vy] };
    let mut rhs = y.clone();
    if two.len() == 2 {
        rhs.extend(z.clone());
    }
    if x.len() > 1 {
        cx.nontrivial();
    }
    let not_in = |v: &[M]| x.iter().filter(|m| !has(v, m)).cloned().collect::<Vec<_>>();
    let both = |v: &[M]| once(&x).into_iter().filter(|m| has(v, m)).collect::<Vec<_>>();
    let cat = |a: &[M], b: &[M]| [a, b].concat();
    match src.below(19) {
        0 => check(cx, "+", a::add, &x, &[vy], Ok(A(cat(&x, &y)))),
        1 => check(cx, "-", a::sub, &x, &[vy], Ok(A(not_in(&y)))),
        2 => check(cx, "&", a::and, &x, &[vy], Ok(A(both(&y)))),
        3 => check(cx, "|", a::or, &x, &[vy], Ok(A(once(&cat(&x, &y))))),
        4 => check(cx, "union", a::union, &x, &[rest(&two)], Ok(A(once(&cat(&x, &rhs))))),
        5 => check(cx, "difference", a::difference, &x, &[rest(&two)], Ok(A(not_in(&rhs)))),
        6 => {
            let mut want = both(&y);
            if two.len() == 2 {
                want.retain(|m| has(&z, m));
            }
            check(cx, "intersection", a::intersection, &x, &[rest(&two)], Ok(A(want)))
        }
        7 => check(cx, "intersect?", a::intersect_, &x, &[vy], Ok(B(!both(&y).is_empty()))),
        8 => check(cx, "uniq", a::uniq, &x, &[], Ok(A(once(&x)))),
        9 => {
            let t = src.range(0, 6) as i64 - 1;
            let want = if t < 0 { Err(Some(Kind::Argument)) } else { Ok(A((0..t).flat_map(|_| x.clone()).collect())) };
            check(cx, "*", a::mul, &x, &[Value::integer(t)], want)?;
            let huge = src.pick(&[1i64 << 60, i64::MAX, (1 << 62) - 1]);
            let want = if x.is_empty() { Ok(A(vec![])) } else { Err(None) };
            check(cx, "*", a::mul, &x, &[Value::integer(huge)], want)
        }
        10 => {
            let small: Vec<Vec<M>> = (0..src.len(3)).map(|_| list(src, 4, ints)).collect();
            let lists: Vec<Value> = small.iter().map(|v| vals(v)).collect();
            let x = &x[..x.len().min(8)];
            let mut want: Vec<Vec<M>> = x.iter().map(|m| vec![m.clone()]).collect();
            for l in &small {
                want = want
                    .iter()
                    .flat_map(|w| l.iter().map(|m| cat(w, &[m.clone()])).collect::<Vec<_>>())
                    .collect();
            }
            let want: Vec<M> = want.into_iter().map(A).collect();
            if src.bool() {
                return check(cx, "product", a::product, x, &[rest(&lists)], Ok(A(want)));
            }
            let mut got = vec![];
            let recv = vals(x);
            let res = run("product", || {
                call_with(a::product, recv, vec![Some(rest(&lists))], |_, v| {
                    got.push(read(v[0]));
                    Ok(Value::nil())
                })
            })?;
            ensure!(res.is_ok_and(|v| v.id() == recv.id()), "product with a block gives something else");
            same!(got, want, "{x:?}.product({small:?}) with a block");
            Ok(())
        }
        11 => {
            let lists: Vec<Vec<M>> = (0..src.len(3)).map(|_| list(src, 9, ints)).collect();
            let vs: Vec<Value> = lists.iter().map(|v| vals(v)).collect();
            let want: Vec<M> = x
                .iter()
                .enumerate()
                .map(|(i, m)| {
                    let mut row = vec![m.clone()];
                    row.extend(lists.iter().map(|l| l.get(i).cloned().unwrap_or(N)));
                    A(row)
                })
                .collect();
            if src.bool() {
                return check(cx, "zip", a::zip, &x, &[rest(&vs)], Ok(A(want)));
            }
            let mut got = vec![];
            let recv = vals(&x);
            let res = run("zip", || {
                call_with(a::zip, recv, vec![Some(rest(&vs))], |_, v| {
                    got.push(read(v[0]));
                    Ok(Value::nil())
                })
            })?;
            ensure!(res.is_ok_and(|v| v.is_nil()), "zip with a block gives something");
            same!(got, want, "{x:?}.zip({lists:?}) with a block");
            Ok(())
        }
        12 => {
            let h = src.len(4);
            let rows: Vec<M> = (0..src.len(5))
                .map(|_| {
                    let h = if src.chance(1, 12) { src.len(4) } else { h };
                    A((0..h).map(|_| ints(src)).collect())
                })
                .collect();
            let row = |m: &M| match m {
                A(v) => v.clone(),
                _ => unreachable!(),
            };
            let h = rows.first().map_or(0, |m| row(m).len());
            let want = if rows.iter().any(|m| row(m).len() != h) {
                Err(Some(Kind::Index))
            } else {
                Ok(A((0..h).map(|i| A(rows.iter().map(|m| row(m)[i].clone()).collect())).collect()))
            };
            check(cx, "transpose", a::transpose, &rows, &[], want)
        }
        13 => {
            let depth = src.range(0, 4) as i64 - 1;
            let mut want = vec![];
            let changed = flat(&x, depth, &mut want);
            let d = Value::integer(depth);
            if depth < 0 && src.bool() {
                return check(cx, "flatten", a::flatten, &x, &[], Ok(A(want)));
            }
            check(cx, "flatten", a::flatten, &x, &[d], Ok(A(want.clone())))?;
            let recv = vals(&x);
            let got = run("flatten!", || call(a::flatten_, recv, &[d]))?;
            let Ok(got) = got else { fail!("{x:?}.flatten!({depth}): {got:?}") };
            ensure!(if changed { got.id() == recv.id() } else { got.is_nil() }, "{x:?}.flatten!({depth}): gives {:?}", read(got));
            same!(read(recv), A(want), "{x:?}.flatten!({depth})");
            Ok(())
        }
        14 => {
            let sep = src.pick(&["", ",", "--"]);
            let want = S(joined(&x, sep));
            // Text of floats and of very large numbers is another matter.
            if x.iter().any(|m| format!("{m:?}").contains('.')) {
                return Ok(());
            }
            if sep.is_empty() && src.bool() {
                check(cx, "join", a::join, &x, &[], Ok(want))
            } else if src.bool() {
                check(cx, "*", a::mul, &x, &[Value::string(sep)], Ok(want))
            } else {
                check(cx, "join", a::join, &x, &[Value::string(sep)], Ok(want))
            }
        }
        15 => check(cx, "==", a::eq, &x, &[vy], Ok(B(eq(&A(x.clone()), &A(y.clone()))))),
        16 => {
            // Near equals: the same, with an element replaced or left out.
            let mut w = x.clone();
            if !w.is_empty() {
                let i = src.usize(w.len());
                match src.below(4) {
                    0 => w[i] = el(src),
                    1 => drop(w.remove(i)),
                    2 => {
                        if let I(b) = &w[i] {
                            w[i] = F(b.to_f64().unwrap());
                        }
                    }
                    _ => {}
                }
            }
            let (mx, mw) = (A(x.clone()), A(w.clone()));
            let vw = vals(&w);
            check(cx, "==", a::eq, &x, &[vw], Ok(B(eq(&mx, &mw))))?;
            check(cx, "eql?", a::eql, &x, &[vw], Ok(B(eql(&mx, &mw))))?;
            check(cx, "<=>", a::cmp, &x, &[vw], Ok(cmp(&mx, &mw).map_or(N, n)))?;
            if eql(&mx, &mw) {
                let h = |v: Value| run("hash", || call(a::hash, v, &[]));
                let (p, q) = (h(vals(&x))?, h(vw)?);
                match (p, q) {
                    (Ok(p), Ok(q)) => same!(read(p), read(q), "hashes of {x:?} and {w:?}"),
                    (p, q) => fail!("hashes of {x:?} and {w:?}: {p:?} {q:?}"),
                }
                cx.label("eql");
            }
            Ok(())
        }
        17 => check(cx, "<=>", a::cmp, &x, &[vy], Ok(cmp(&A(x.clone()), &A(y.clone())).map_or(N, n))),
        _ => {
            let recv = vals(&x);
            let want = once(&x);
            let got = run("uniq!", || call(a::uniq_, recv, &[]))?;
            let Ok(got) = got else { fail!("{x:?}.uniq!: {got:?}") };
            let changed = want.len() != x.len();
            ensure!(if changed { got.id() == recv.id() } else { got.is_nil() }, "{x:?}.uniq!: gives {:?}", read(got));
            same!(read(recv), A(want), "{x:?}.uniq!");
            Ok(())
        }
    }
}

fn order(src: &mut Src, cx: &mut Cx) -> R {
    sweep_world();
    let el: fn(&mut Src) -> M = src.pick(&[ints as fn(&mut Src) -> M, numbers, words, objects, lists, mixed]);
    let x = some(src, el);
    if x.len() > 1 {
        cx.nontrivial();
    }
    let comparable = (0..x.len()).all(|i| (0..i).all(|j| cmp(&x[i], &x[j]).is_some()));
    // What a block compares by.
    let down = src.bool();
    let with_block = src.bool();
    let rank = move |p: &M, q: &M| cmp(p, q).map(|c| if with_block && down { -c } else { c });
    let less = |p: &M, q: &M| rank(p, q).unwrap().cmp(&0);
    // A block may answer with any number.
    let style = src.below(3);
    let answer = move |c: Option<i64>| match (c, style) {
        (None, _) => Value::nil(),
        (Some(c), 0) => Value::integer(c * 7),
        (Some(c), 1) => Value::float(c as f64 / 4.0),
        (Some(c), _) => Value::bigint(BigInt::from(c) << 66),
    };
    let recv = vals(&x);
    let ask = |f: Method| {
        run("order", || {
            if with_block {
                call_with(f, recv, vec![], |_, v| Ok(answer(rank(&read(v[0]), &read(v[1])))))
            } else {
                call(f, recv, &[])
            }
        })
    };
    let how = if with_block { format!(" by a block{}", if down { " downwards" } else { "" }) } else { String::new() };
    let sorted = |got: &[M]| -> R {
        for w in got.windows(2) {
            ensure!(less(&w[0], &w[1]) != std::cmp::Ordering::Greater, "{x:?} sorted{how}: {got:?} is out of order");
        }
        let bag = |v: &[M]| {
            let mut v: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect();
            v.sort();
            v
        };
        same!(bag(got), bag(&x), "{x:?} sorted{how}: elements");
        Ok(())
    };
    match src.below(7) {
        0 | 1 => {
            let bang = src.bool();
            note!(cx, "{x:?}.sort{}{how}", if bang { "!" } else { "" });
            let got = ask(if bang { a::sort_ } else { a::sort })?;
            match got {
                Ok(v) => {
                    // One element too few to be compared may be left alone.
                    ensure!(comparable, "{x:?} sorted{how}: {:?}, expected an error", read(v));
                    ensure!((v.id() == recv.id()) == bang, "{x:?} sorted{how}: wrong array given");
                    let A(got) = read(v) else { fail!("no array") };
                    sorted(&got)?;
                    if !bang {
                        same!(read(recv), A(x.clone()), "the receiver of sort");
                    }
                }
                Err(e) => {
                    ensure!(!comparable, "{x:?} sorted{how}: {:?} {}", e.kind, e.msg);
                    same!(e.kind, Kind::Argument, "{x:?} sorted{how}: error");
                    cx.label("not comparable");
                }
            }
        }
        2 | 3 => {
            // By a key that is made by the block.
            let bang = src.bool();
            note!(cx, "{x:?}.sort_by{}", if bang { "!" } else { "" });
            let style = src.below(3);
            let key_of = |m: &M| match (style, m) {
                (0, m) => m.clone(),
                (1, m) => A(vec![m.clone(), n(1)]),
                (_, m) => n(format!("{m:?}").len() as i64),
            };
            let f = if bang { a::sort_by_ } else { a::sort_by };
            let got = run("sort_by", || call_with(f, recv, vec![], |_, v| Ok(build(&key_of(&read(v[0]))))))?;
            let ks: Vec<M> = x.iter().map(&key_of).collect();
            let comparable = (0..ks.len()).all(|i| (0..i).all(|j| cmp(&ks[i], &ks[j]).is_some()));
            match got {
                Ok(v) => {
                    ensure!(comparable, "{x:?}.sort_by {ks:?}: {:?}, expected an error", read(v));
                    ensure!((v.id() == recv.id()) == bang, "{x:?}.sort_by: wrong array given");
                    let A(got) = read(v) else { fail!("no array") };
                    for w in got.windows(2) {
                        ensure!(
                            cmp(&key_of(&w[0]), &key_of(&w[1])).unwrap() <= 0,
                            "{x:?}.sort_by {ks:?}: {got:?} is out of order"
                        );
                    }
                    let bag = |v: &[M]| {
                        let mut v: Vec<String> = v.iter().map(|m| format!("{m:?}")).collect();
                        v.sort();
                        v
                    };
                    same!(bag(&got), bag(&x), "{x:?}.sort_by: elements");
                }
                Err(e) => {
                    ensure!(!comparable, "{x:?}.sort_by {ks:?}: {:?} {}", e.kind, e.msg);
                    same!(read(recv), A(x.clone()), "the receiver of a failed sort_by");
                    cx.label("not comparable");
                }
            }
        }
        k => {
            let first_best = |want: std::cmp::Ordering| {
                let mut best = x.first()?;
                for m in &x[1..] {
                    if rank(m, best)?.cmp(&0) == want {
                        best = m;
                    }
                }
                Some(best.clone())
            };
            let (lo, hi) = (first_best(std::cmp::Ordering::Less), first_best(std::cmp::Ordering::Greater));
            let (f, name, want): (Method, _, _) = match k {
                4 => (a::min, "min", lo),
                5 => (a::max, "max", hi),
                _ => (a::minmax, "minmax", lo.zip(hi).map(|(p, q)| A(vec![p, q]))),
            };
            let want = match (want, x.is_empty()) {
                (_, true) if k == 6 => Some(A(vec![N, N])),
                (_, true) => Some(N),
                (w, _) => w,
            };
            note!(cx, "{x:?}.{name}{how}");
            match (ask(f)?, want) {
                (Ok(v), Some(w)) => {
                    // Of equals either may be the largest or smallest of a pair.
                    let got = read(v);
                    if k == 6 {
                        let (A(g), A(w)) = (&got, &w) else { fail!("{x:?}.{name}{how}: {got:?}") };
                        ensure!(
                            g.len() == 2 && (0..2).all(|i| rank(&g[i], &w[i]) == Some(0)),
                            "{x:?}.{name}{how}: {g:?}, expected {w:?}"
                        );
                    } else {
                        same!(got, w, "{x:?}.{name}{how}");
                    }
                }
                (Err(e), None) => {
                    same!(e.kind, Kind::Argument, "{x:?}.{name}{how}: error");
                    cx.label("not comparable");
                }
                (Ok(v), None) => fail!("{x:?}.{name}{how}: {:?}, expected an error", read(v)),
                (Err(e), Some(w)) => fail!("{x:?}.{name}{how}: {:?} {}, expected {w:?}", e.kind, e.msg),
            }
            same!(read(recv), A(x.clone()), "the receiver of {name}");
        }
    }
    Ok(())
}

fn total(v: &[M]) -> Option<M> {
    // Integers alone stay so; a rational and a float make what they make.
    let mut whole = BigInt::from(0u8);
    let (mut num, mut den) = (0i64, 1i64);
    let (mut float, mut real) = (false, 0.0);
    let mut ratio = false;
    for m in v {
        match m {
            I(i) => whole = whole + i.clone(),
            Q(a, b) => {
                num = num * b + a * den;
                den *= b;
                let g = gcd(num.abs(), den);
                (num, den) = (num / g, den / g);
                ratio = true;
            }
            F(f) => {
                real += f;
                float = true;
            }
            _ => return None,
        }
    }
    if float {
        return Some(F(real + num as f64 / den as f64 + whole.to_f64()?));
    }
    if ratio {
        return Some(Q(num + whole.to_i64()? * den, den));
    }
    Some(I(whole))
}
/// A float as so many 2**-200.
fn scaled(f: f64) -> BigInt {
    let bits = f.to_bits();
    let e = (bits >> 52 & 0x7ff) as i64 - 1075 + 200;
    let m = BigInt::from(bits & ((1 << 52) - 1) | if f == 0.0 { 0 } else { 1 << 52 });
    let m = if e >= 0 { m << e as usize } else { m >> (-e) as usize };
    if f < 0.0 { -m } else { m }
}
fn gcd(a: i64, b: i64) -> i64 {
    if b == 0 { a.max(1) } else { gcd(b, a % b) }
}

/// Methods that run a block over the elements.
fn blocks(src: &mut Src, cx: &mut Cx) -> R {
    sweep_world();
    let el: fn(&mut Src) -> M = src.pick(&[mixed as fn(&mut Src) -> M, ints]);
    let x = some(src, el);
    let recv = vals(&x);
    if x.len() > 1 {
        cx.nontrivial();
    }
    let yes: Vec<bool> = x.iter().map(|_| src.bool()).collect();
    // The call at which the block raises.
    let stop = (!x.is_empty() && src.chance(1, 4)).then(|| src.usize(x.len()));
    let mut seen: Vec<M> = vec![];
    let answers = yes.clone();
    let truth = |b: bool, i: usize| match (b, i % 3) {
        (true, 0) => n(0),
        (true, 1) => S("".into()),
        (true, _) => B(true),
        (false, 0) => N,
        (false, _) => B(false),
    };
    let pick = |b: bool| x.iter().zip(&yes).filter(|p| *p.1 == b).map(|p| p.0.clone()).collect::<Vec<_>>();
    let each = |f: Method, args: Vec<Option<Value>>, seen: &mut Vec<M>| {
        run("block", || {
            call_with(f, recv, args, |_, v| {
                let i = seen.len();
                seen.push(read(v[0]));
                if stop == Some(i) {
                    return Err(MonorubyErr::rangeerr("stop"));
                }
                Ok(build(&truth(answers.get(i).copied().unwrap_or(false), i)))
            })
        })
    };
    const WHICH: &[(&str, Method)] = &[
        ("filter", a::filter),
        ("reject", a::reject),
        ("partition", a::partition),
        ("filter!", a::filter_),
        ("keep_if", a::keep_if),
        ("reject!", a::reject_),
        ("delete_if", a::delete_if),
        ("all?", a::all_),
        ("any?", a::any_),
        ("detect", a::detect),
        ("rfind", a::rfind),
        ("find_index", a::find_index),
        ("count", a::count),
    ];
    let k = src.usize(WHICH.len() + 13);
    if let Some((name, f)) = WHICH.get(k) {
        note!(cx, "{x:?}.{name} with {yes:?}, raising at {stop:?}");
        let got = each(*f, vec![], &mut seen)?;
        let first = yes.iter().position(|b| *b);
        let last = yes.iter().rev().position(|b| *b);
        // How many elements the block is to see.
        let sees = match *name {
            "all?" => yes.iter().position(|b| !*b).map_or(x.len(), |i| i + 1),
            "any?" | "detect" | "find_index" => first.map_or(x.len(), |i| i + 1),
            "rfind" => last.map_or(x.len(), |i| i + 1),
            _ => x.len(),
        };
        let raised = stop.is_some_and(|s| s < sees);
        // Going backwards, the answers go to the elements from the end.
        let expect_seen: Vec<M> = if *name == "rfind" {
            let first_yes = yes.iter().position(|b| *b).map_or(x.len(), |i| i + 1);
            let sees = stop.map_or(first_yes, |s| first_yes.min(s + 1));
            x.iter().rev().take(sees).cloned().collect()
        } else {
            x.iter().take(stop.map_or(sees, |s| sees.min(s + 1))).cloned().collect()
        };
        same!(seen, expect_seen, "what {x:?}.{name} shows its block");
        let raised = if *name == "rfind" {
            stop.is_some_and(|s| s < yes.iter().position(|b| *b).map_or(x.len(), |i| i + 1))
        } else {
            raised
        };
        let bang = matches!(*name, "filter!" | "keep_if" | "reject!" | "delete_if");
        let keeps = matches!(*name, "filter!" | "keep_if");
        let done = if raised { stop.unwrap() } else { x.len() };
        let after: Vec<M> = if bang {
            x.iter()
                .enumerate()
                .filter(|(i, _)| *i >= done || yes[*i] == keeps)
                .map(|(_, m)| m.clone())
                .collect()
        } else {
            x.clone()
        };
        same!(read(recv), A(after.clone()), "{x:?} after {name} with {yes:?}, raising at {stop:?}");
        let v = match (got, raised) {
            (Err(e), true) => {
                same!(e.msg, "stop", "error of {name}");
                cx.label("raised");
                return Ok(());
            }
            (Ok(v), false) => v,
            (got, _) => fail!("{x:?}.{name}: {:?}", got.map(read)),
        };
        if bang {
            let changed = after.len() != x.len();
            let me = changed || matches!(*name, "keep_if" | "delete_if");
            ensure!(if me { v.id() == recv.id() } else { v.is_nil() }, "{x:?}.{name} gives {:?}", read(v));
            return Ok(());
        }
        let want = match *name {
            "filter" => A(pick(true)),
            "reject" => A(pick(false)),
            "partition" => A(vec![A(pick(true)), A(pick(false))]),
            "all?" => B(yes.iter().all(|b| *b)),
            "any?" => B(first.is_some()),
            "detect" => first.map_or(N, |i| x[i].clone()),
            "rfind" => first.map_or(N, |i| x[x.len() - 1 - i].clone()),
            "find_index" => first.map_or(N, |i| n(i as i64)),
            _ => n(pick(true).len() as i64),
        };
        same!(read(v), want, "{x:?}.{name} with {yes:?}");
        return Ok(());
    }
    let arg = if src.bool() && !x.is_empty() { x[src.usize(x.len())].clone() } else { el(src) };
    match k - WHICH.len() {
        0 => {
            // Lists and single elements, put together.
            let outs: Vec<M> = x.iter().map(|_| if src.bool() { lists(src) } else { ints(src) }).collect();
            let mut i = 0;
            let given = outs.clone();
            let got = run("flat_map", || {
                call_with(a::flat_map, recv, vec![], |_, _| {
                    i += 1;
                    Ok(build(&given[i - 1]))
                })
            })?;
            let want: Vec<M> = outs.iter().flat_map(|m| if let A(v) = m { v.clone() } else { vec![m.clone()] }).collect();
            same!(got.map(read).ok(), Some(A(want)), "{x:?}.flat_map to {outs:?}");
        }
        1 => {
            let init = src.bool().then(|| n(100));
            let mut it = x.iter().cloned();
            let start = init.clone().or_else(|| it.next());
            let want = start.map_or(N, |s| it.fold(s, |acc, m| A(vec![acc, m])));
            let args = init.map(|m| Some(build(&m))).into_iter().collect();
            // Nested deeper with every step: kept short.
            if x.len() > 30 {
                return Ok(());
            }
            let got = run("inject", || call_with(a::inject, recv, args, |_, v| Ok(Value::array2(v[0], v[1]))))?;
            same!(got.map(read).ok(), Some(want), "{x:?}.inject with a block");
        }
        2 => {
            let x = list(src, 12, numbers);
            let init = src.bool().then(|| numbers(src));
            let all: Vec<M> = init.iter().chain(&x).cloned().collect();
            // Floats chosen so that sums are exact whatever the order.
            let want = total(&all).unwrap();
            let same_value = |g: &M, w: &M| g == w || (num_parts(g) == num_parts(w) && !matches!((g, w), (I(_), F(_)) | (F(_), I(_))));
            let args: Vec<Value> = init.iter().map(build).collect();
            let got = run("sum", || call(a::sum, vals(&x), &args))?;
            let Ok(g) = got else { fail!("{x:?}.sum({init:?}): {got:?}") };
            ensure!(same_value(&read(g), &want), "{x:?}.sum({init:?}): {:?}, expected {want:?}", read(g));
            let mut args: Vec<Value> = args;
            args.push(Value::symbol(IdentId::get_id("+")));
            let got = run("inject", || call(a::inject, vals(&x), &args))?;
            let Ok(g) = got else { fail!("{x:?}.inject({init:?}, :+): {got:?}") };
            let want = if all.is_empty() { N } else { want };
            ensure!(same_value(&read(g), &want), "{x:?}.inject({init:?}, :+): {:?}, expected {want:?}", read(g));
        }
        3 => {
            // Sums beyond a word.
            let big = src.pick(&[(1i64 << 62) - 1, -(1 << 62), (1 << 61) + 5]);
            let x: Vec<M> = (0..src.len(9)).map(|_| n(if src.bool() { big } else { src.below(9) as i64 - 4 })).collect();
            check(cx, "sum", a::sum, &x, &[], Ok(total(&x).unwrap()))?;
        }
        4 => {
            let keys: Vec<M> = x.iter().map(|_| lists(src)).collect();
            let bang = src.bool();
            let mut i = 0;
            let given = keys.clone();
            let f = if bang { a::uniq_ } else { a::uniq };
            let got = run("uniq", || {
                call_with(f, recv, vec![], |_, _| {
                    i += 1;
                    Ok(build(&given[i - 1]))
                })
            })?;
            let want: Vec<M> = (0..x.len()).filter(|i| !has(&keys[..*i], &keys[*i])).map(|i| x[i].clone()).collect();
            let Ok(v) = got else { fail!("{x:?}.uniq by {keys:?}: {got:?}") };
            if bang {
                let changed = want.len() != x.len();
                ensure!(if changed { v.id() == recv.id() } else { v.is_nil() }, "{x:?}.uniq!: gives {:?}", read(v));
                same!(read(recv), A(want), "{x:?}.uniq! by {keys:?}");
            } else {
                same!(read(v), A(want), "{x:?}.uniq by {keys:?}");
            }
        }
        5 => {
            let i = position(src, x.len());
            let at = if i < 0 { i as i128 + x.len() as i128 } else { i as i128 };
            let inside = at >= 0 && at < x.len() as i128;
            let got = run("fetch", || call_with(a::fetch, recv, vec![Some(Value::integer(i))], |_, v| Ok(Value::array2(v[0], v[0]))))?;
            let want = if inside { x[at as usize].clone() } else { A(vec![n(i), n(i)]) };
            same!(got.map(read).ok(), Some(want), "{x:?}.fetch({i}) with a block");
        }
        6 => {
            let len = x.len();
            let args = match src.below(4) {
                0 => vec![],
                1 => vec![Arg::Int(src.range(0, len + 8) as i64 - len as i64 - 2)],
                2 => vec![Arg::Int(src.range(0, len + 8) as i64 - len as i64 - 2), Arg::Int(src.range(0, 9) as i64 - 1)],
                _ => vec![Arg::Span(Some(src.range(0, len + 3) as i64), Some(src.range(0, len + 9) as i64 - 3), src.bool())],
            };
            let s = Step { name: "fill", f: a::fill, args: [vec![Arg::El(n(-77))], args.clone()].concat() };
            let nothing = match args.as_slice() {
                [Arg::Int(i), Arg::Int(0)] => *i > len as i64,
                [r @ Arg::Span(..)] => resolve(r, len, false).is_some_and(|(b, k)| k == 0 && b > len as i128),
                _ => false,
            };
            if nothing {
                return Ok(());
            }
            let mut want = x.clone();
            let res = follow(&mut want, &s);
            let want: Vec<M> = want.into_iter().enumerate().map(|(i, m)| if m == n(-77) { n(1000 + i as i64) } else { m }).collect();
            let vs = args.iter().map(|a| Some(a.value(recv))).collect();
            let got = run("fill", || {
                call_with(a::fill, recv, vs, |_, v| Ok(Value::integer(1000 + v[0].try_fixnum().unwrap())))
            })?;
            ensure!(got.is_ok() == res.is_ok(), "{x:?}.fill({args:?}) with a block: {got:?}");
            if res.is_ok() {
                same!(read(recv), A(want), "{x:?}.fill({args:?}) with a block");
            }
        }
        7 => {
            check(cx, "include?", a::include_, &x, &[build(&arg)], Ok(B(x.iter().any(|m| eq(m, &arg)))))?;
            check(cx, "count", a::count, &x, &[build(&arg)], Ok(n(x.iter().filter(|m| eq(m, &arg)).count() as i64)))?;
            let at = x.iter().position(|m| eq(m, &arg));
            check(cx, "find_index", a::find_index, &x, &[build(&arg)], Ok(at.map_or(N, |i| n(i as i64))))?;
        }
        8 => {
            // Neither block nor pattern: the elements themselves; with a pattern, what it equals.
            let x: Vec<M> = (0..src.len(6)).map(|_| if src.chance(1, 5) { if src.bool() { N } else { B(false) } } else { el(src) }).collect();
            let holds = |m: &M| !matches!(m, N | B(false));
            check(cx, "all?", a::all_, &x, &[], Ok(B(x.iter().all(holds))))?;
            check(cx, "any?", a::any_, &x, &[], Ok(B(x.iter().any(holds))))?;
            let x: Vec<M> = (0..src.len(6)).map(|_| if src.chance(3, 4) { arg.clone() } else { el(src) }).collect();
            let p = [build(&arg)];
            check(cx, "all? of a pattern", a::all_, &x, &p, Ok(B(x.iter().all(|m| eq(&arg, m)))))?;
            check(cx, "any? of a pattern", a::any_, &x, &p, Ok(B(x.iter().any(|m| eq(&arg, m)))))?;
        }
        9 => {
            // Floats that cancel: what is left is as good as if added exactly.
            let x: Vec<f64> = (0..src.len(12))
                .map(|_| {
                    let f = src.pick(&[0.1, 0.2, 0.3, 1e15, 3.0, 1e-7, 0.7, 1e10]) * (1 + src.below(9)) as f64;
                    if src.bool() { -f } else { f }
                })
                .collect();
            let exact: BigInt = x.iter().map(|f| scaled(*f)).fold(BigInt::from(0u8), |a, b| a + b);
            let xs: Vec<M> = x.iter().map(|f| F(*f)).collect();
            let got = run("sum", || call(a::sum, vals(&xs), &[Value::float(0.0)]))?;
            let Ok(RV::Float(g)) = got.as_ref().map(|v| v.unpack()) else { fail!("{x:?}.sum: {got:?}") };
            let off = scaled(g) - exact.clone();
            let off = if off < BigInt::from(0u8) { -off } else { off };
            let size = if exact < BigInt::from(0u8) { -exact } else { exact };
            let bulk: BigInt = x.iter().map(|f| scaled(f.abs())).fold(BigInt::from(0u8), |a, b| a + b);
            let allowed = (size >> 52usize) + (bulk >> 98usize);
            ensure!(off <= allowed, "{x:?}.sum(0.0): {g:?}");
        }
        10 => {
            // An array may be joined as often as it occurs, but not within itself.
            let inner = list(src, 4, words);
            let v = vals(&inner);
            let times = src.range(1, 3);
            let deep = src.bool();
            let mid = Value::array_from_vec(vec![Value::string("m"), v]);
            let part = if deep { mid } else { v };
            let top = Value::array_from_vec((0..times).map(|_| part).collect());
            let words: Vec<String> = inner.iter().map(text).collect();
            // An empty array leaves an empty place.
            let one = words.join("-");
            let one = if deep { format!("m-{one}") } else { one };
            let want = vec![one; times].join("-");
            let sep = Value::string("-");
            let got = run("join", || call(a::join, top, &[sep]))?;
            same!(got.map(read).ok(), Some(S(want)), "[{inner:?}; {times}].join, nested more: {deep}");
            v.as_array().push(if src.bool() { v } else { top });
            let got = run("join", || call(a::join, top, &[sep]))?;
            ensure!(got.is_err(), "an array within itself was joined to {:?}", got.map(read));
        }
        11 => {
            // What is the same need not be asked whether it is equal.
            let nan = Value::float(f64::NAN);
            let mut p = x.iter().map(build).collect::<Vec<_>>();
            let mut q = p.clone();
            let at = src.usize(p.len() + 1);
            p.insert(at, nan);
            q.insert(at, if src.bool() { nan } else { Value::float(f64::NAN) });
            let alike = q[at].id() == nan.id();
            let (p, q) = (Value::array_from_vec(p), Value::array_from_vec(q));
            let got = run("==", || call(a::eq, p, &[q]))?;
            same!(got.map(read).ok(), Some(B(alike)), "{x:?} with a NaN at {at} == the same, one NaN: {alike}");
        }
        _ => {
            let left: Vec<M> = x.iter().filter(|m| !eq(m, &arg)).cloned().collect();
            let last = x.iter().rev().find(|m| eq(m, &arg)).cloned();
            let block = src.bool();
            let got = run("delete", || {
                if block {
                    call_with(a::delete, recv, vec![Some(build(&arg))], |_, _| Ok(Value::string("none")))
                } else {
                    call(a::delete, recv, &[build(&arg)])
                }
            })?;
            let none = if block { S("none".into()) } else { N };
            same!(got.map(read).ok(), Some(last.unwrap_or(none)), "{x:?}.delete({arg:?})");
            same!(read(recv), A(left), "{x:?}.delete({arg:?})");
        }
    }
    Ok(())
}

const C50: Prop = Prop {
    id: "C50",
    rule: "the array has at least two elements",
    assumptions: &[
        "heap objects, strings and method dispatch are stand-ins; arrays, numbers and their methods are the real code",
        "objects compare by a key and answer <=> with any difference, not only -1, 0 and 1",
    ],
    level: "exploration",
    suites: &[
        Suite { name: "algebra", cases: 300_000, run: algebra },
        Suite { name: "order", cases: 200_000, run: order },
        Suite { name: "blocks", cases: 1_000_000, run: blocks },
    ],
    known: &[],
};
