//! C59: the methods of IO::Buffer, whose views show other buffers' and strings' bytes.

#![allow(dead_code, unused)]

include!("buffers_world.rs");
use pbt::*;

#[derive(Clone, Debug)]
enum St {
    Null,
    Own(Vec<u8>),
    Str(usize, usize),
    Slice(usize, usize),
}
/// A buffer as the statement has it: bytes of its own or a span of something else.
#[derive(Clone, Debug)]
struct MB {
    st: St,
    size: usize,
    ro: bool,
    /// Neither its own bytes nor nothing.
    fixed: bool,
}
#[derive(Default)]
struct Model {
    strings: Vec<Vec<u8>>,
    bufs: Vec<MB>,
}
impl Model {
    fn bytes(&self, b: usize) -> Option<Vec<u8>> {
        let m = &self.bufs[b];
        match &m.st {
            St::Null => Some(vec![]),
            St::Own(v) => Some(v.clone()),
            St::Str(s, o) => self.strings[*s].get(*o..o + m.size).map(|x| x.to_vec()),
            St::Slice(p, o) => self.bytes(*p)?.get(*o..o + m.size).map(|x| x.to_vec()),
        }
    }
    fn write(&mut self, b: usize, at: usize, data: &[u8]) {
        match self.bufs[b].st.clone() {
            St::Null => {}
            St::Own(_) => {
                let St::Own(v) = &mut self.bufs[b].st else { unreachable!() };
                v[at..at + data.len()].copy_from_slice(data);
            }
            St::Str(s, o) => self.strings[s][o + at..o + at + data.len()].copy_from_slice(data),
            St::Slice(p, o) => self.write(p, o + at, data),
        }
    }
    fn add(&mut self, st: St, size: usize, ro: bool, fixed: bool) -> usize {
        self.bufs.push(MB { st, size, ro, fixed });
        self.bufs.len() - 1
    }
    fn own(&mut self, v: Vec<u8>) -> usize {
        let n = v.len();
        self.add(St::Own(v), n, false, false)
    }
}

/// Name, width, kind (unsigned, signed, float), most significant byte first.
const TYPES: &[(&str, usize, u8, bool)] = &[
    ("U8", 1, 0, false), ("S8", 1, 1, false),
    ("u16", 2, 0, false), ("U16", 2, 0, true), ("s16", 2, 1, false), ("S16", 2, 1, true),
    ("u32", 4, 0, false), ("U32", 4, 0, true), ("s32", 4, 1, false), ("S32", 4, 1, true),
    ("u64", 8, 0, false), ("U64", 8, 0, true), ("s64", 8, 1, false), ("S64", 8, 1, true),
    ("f32", 4, 2, false), ("F32", 4, 2, true), ("f64", 8, 2, false), ("F64", 8, 2, true),
];
fn shown(b: &[u8], t: (&str, usize, u8, bool)) -> Seen {
    let mut b = b.to_vec();
    if !t.3 {
        b.reverse();
    }
    let n = b.iter().fold(0u128, |n, x| n << 8 | *x as u128) as i128;
    match t.2 {
        0 => Seen::Int(n),
        1 => Seen::Int(if b[0] >= 128 { n - (1 << (8 * t.1)) } else { n }),
        _ if t.1 == 4 => Seen::Float((f32::from_bits(n as u32) as f64).to_bits()),
        _ => Seen::Float(n as u64),
    }
}

fn fresh() {
    collect(vec![]);
}

/// An offset or a length: inside, at the end, just outside, far outside, negative.
fn place(src: &mut Src, size: usize) -> i64 {
    match src.weighted(&[14, 6, 2, 1, 1]) {
        0 => src.usize(size + 1) as i64,
        1 => size as i64 - src.below(3) as i64,
        2 => size as i64 + 1 + src.below(3) as i64,
        3 => -1 - src.below(3) as i64,
        _ => src.pick(&[i64::MAX, i64::MIN, 1 << 62, i64::MAX - 3, 1 << 32]),
    }
}
fn blob(src: &mut Src, n: usize) -> Vec<u8> {
    let n = src.usize(n + 1);
    (0..n).map(|_| src.pick(&[0u8, 1, 0x7f, 0x80, 0xff, b'a', b'b', 0xf0])).collect()
}

/// Offset and length as arguments, and the span they name.
fn span(src: &mut Src, size: usize) -> (Vec<Value>, Option<(usize, usize)>, String) {
    let n = src.below(3);
    let nil = |v: i64, none: bool| if none { Value::nil() } else { Value::integer(v) };
    let (o, l) = (place(src, size), place(src, size));
    let o_nil = src.chance(1, 8);
    let l_nil = src.chance(1, 8);
    let o_eff = if n == 0 || o_nil { 0 } else { o };
    let l_eff = if n < 2 || l_nil { None } else { Some(l) };
    let args: Vec<Value> = [nil(o, o_nil), nil(l, l_nil)][..n as usize].to_vec();
    let ok = (|| {
        let o = usize::try_from(o_eff).ok().filter(|o| *o <= size)?;
        let l = match l_eff {
            None => size - o,
            Some(l) => usize::try_from(l).ok()?,
        };
        (l <= size - o).then_some((o, l))
    })();
    let t = format!("{:?}", args.iter().map(|v| see(*v)).collect::<Vec<_>>());
    (args, ok, t)
}

struct World {
    vm: Executor,
    m: Model,
    /// The program's strings, then its buffers: values and what they are in the model.
    vals: Vec<Value>,
    /// Buffers the program still holds.
    held: Vec<usize>,
    strs: Vec<(usize, Value)>,
    slots: Vec<Value>,
}
impl World {
    fn roots(&mut self) {
        self.vm.vars = self.strs.iter().map(|s| s.1).chain(self.held.iter().map(|b| self.vals[*b])).collect();
    }
    fn add(&mut self, b: usize, v: Value) {
        assert_eq!(b, self.vals.len());
        self.vals.push(v);
        self.held.push(b);
        self.roots();
    }
    fn string(&mut self, bytes: Vec<u8>, v: Value) -> usize {
        self.m.strings.push(bytes);
        let i = self.m.strings.len() - 1;
        self.strs.push((i, v));
        self.roots();
        i
    }
    /// Every buffer and string the program holds shows what the model says.
    fn agree(&mut self, after: &str) -> R {
        for b in self.held.clone() {
            let (v, m) = (self.vals[b], self.m.bufs[b].clone());
            let want = self.m.bytes(b);
            let got = call(&mut self.vm, "get_string", v, vec![], false);
            match (&got, &want) {
                (Ok(s), Some(w)) => ensure!(see(*s) == Seen::Bytes(w.clone()), "buffer {b} after {after}: holds {:?}, expected {w:?}", see(*s)),
                (Err(_), None) => {}
                _ => fail!("buffer {b} after {after}: reads as {:?}, expected {want:?}", got.map(see)),
            }
            let size = see(call(&mut self.vm, "size", v, vec![], false).unwrap());
            ensure!(size == Seen::Int(m.size as i128), "buffer {b} after {after}: has size {size:?}, expected {}", m.size);
            let valid = see(call(&mut self.vm, "valid?", v, vec![], false).unwrap());
            ensure!(valid == Seen::Bool(want.is_some()), "buffer {b} after {after}: valid? answers {valid:?}");
            let ro = see(call(&mut self.vm, "readonly?", v, vec![], false).unwrap());
            ensure!(ro == Seen::Bool(m.ro) || m.size == 0, "buffer {b} after {after}: readonly? answers {ro:?}");
        }
        for (i, v) in &self.strs {
            ensure!(see(*v) == Seen::Bytes(self.m.strings[*i].clone()), "a string after {after} is {:?}, expected {:?}", see(*v), self.m.strings[*i]);
        }
        ensure!(self.vm.temp.is_empty(), "{after} leaves values put aside");
        Ok(())
    }
}

fn start(src: &mut Src) -> World {
    fresh();
    let mut w = World { vm: Executor::default(), m: Model::default(), vals: vec![], held: vec![], strs: vec![], slots: vec![] };
    for _ in 0..2 {
        let b = blob(src, 24);
        let v = Value::text(b.clone(), src.bool(), false);
        w.string(b, v);
    }
    w
}

/// Makes a buffer of any kind.
fn make(src: &mut Src, cx: &mut Cx, w: &mut World) -> R {
    match src.weighted(&[4, 2, 4, 1]) {
        0 => {
            let size = if src.chance(1, 40) { src.pick(&[4095usize, 4096, 5000]) } else { src.usize(25) };
            note!(cx, "buffer {}: new of {size}", w.vals.len());
            let v = call(&mut w.vm, "allocate", Value::nil(), vec![], false).unwrap();
            w.vm.vars.push(v);
            // where the bytes are to live, and whether they may be written
            let flags = src.chance(1, 6).then(|| src.pick(&[0i64, 2, 4, 128, 2 + 128, 4 + 128, 8]));
            let mut args = vec![Value::integer(size as i64)];
            args.extend(flags.map(Value::integer));
            let r = call(&mut w.vm, "initialize", v, args, false);
            let flags = flags.unwrap_or(2);
            ensure!(r.is_ok() == (size == 0 || flags & 6 != 0), "new({size}) with flags {flags} gives {:?}", r.map(see));
            if r.is_ok() {
                let b = if size == 0 { w.m.add(St::Null, 0, false, false) } else { w.m.own(vec![0; size]) };
                w.m.bufs[b].ro = size > 0 && flags & 128 != 0;
                w.add(b, v);
            }
        }
        1 => {
            let s = src.usize(w.strs.len());
            let (i, sv) = w.strs[s];
            note!(cx, "buffer {}: for string {i}", w.vals.len());
            let v = match call(&mut w.vm, ".for", Value::nil(), vec![sv], false) {
                Ok(v) => v,
                Err(e) => fail!("for raises {e:?}"),
            };
            let bytes = w.m.strings[i].clone();
            let n = bytes.len();
            w.m.strings.push(bytes);
            let b = w.m.add(St::Str(w.m.strings.len() - 1, 0), n, true, true);
            w.add(b, v);
        }
        _ => {
            // the block keeps a slice of the buffer it is given, or takes it over
            let own = src.chance(1, 3);
            let s = src.usize(w.strs.len());
            let (i, sv) = w.strs[s];
            let n = if own { src.usize(20) } else { w.m.strings[i].len() };
            let (args, ok, text) = span(src, n);
            let moved = src.chance(1, 3);
            let collects = src.chance(1, 4);
            note!(cx, "buffer {}: {} of the buffer given by {}", w.vals.len(), if moved { "transfer".to_string() } else { format!("slice {text}") }, if own { format!("string({n})") } else { format!("for string {i}") });
            w.vm.hook = Some((if moved { "transfer" } else { "slice" }, if moved { vec![] } else { args }));
            w.vm.script = vec![Step { act: Act::Nothing, collect: collects, raise: false }];
            let r = if own { call(&mut w.vm, ".string", Value::nil(), vec![Value::integer(n as i64)], true) } else { call(&mut w.vm, ".for", Value::nil(), vec![sv], true) };
            w.vm.script.clear();
            let r = match r {
                Ok(r) => r,
                Err(e) => fail!("the method raises {e:?}"),
            };
            let i = if own {
                ensure!(see(r) == Seen::Bytes(vec![0; n]), "string({n}) gives {:?}", see(r));
                w.string(vec![0; n], r)
            } else {
                i
            };
            let kept = w.vm.kept.take().expect("the block did not run");
            match (kept, if moved { Some((0, n)) } else { ok }) {
                (Ok(v), Some((o, l))) => {
                    let b = w.m.add(St::Str(i, o), l, false, true);
                    w.add(b, v);
                }
                (Err(_), None) => {}
                (got, want) => fail!("the slice is {:?}, expected {want:?}", got.map(see)),
            }
        }
    }
    Ok(())
}

fn views(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = start(src);
    let mut n = 0;
    let mut chained = 0;
    while n < 30 && src.more(20) {
        n += 1;
        if w.held.is_empty() || (w.held.len() < 5 && src.chance(1, 4)) {
            make(src, cx, &mut w)?;
            w.agree("making a buffer")?;
            continue;
        }
        let at = src.usize(w.held.len());
        // rather a younger one, which may be a view of a view
        let at = if src.bool() { at.max(src.usize(w.held.len())) } else { at };
        let b = w.held[at];
        let v = w.vals[b];
        let m = w.m.bufs[b].clone();
        let all = w.m.bytes(b);
        if all.is_none() || matches!(m.st, St::Slice(..)) {
            chained += 1;
        }
        let (s, sv) = w.strs[src.usize(w.strs.len())];
        let what = src.weighted(&[6, 3, 4, 2, 3, 4, 3, 2, 1, 1, 1, 2, 3, 1, 1, 1, 1, 1]);
        let text;
        macro_rules! is {
            ($got:expr, $want:expr) => {{
                let (got, want): (Result<Value>, Option<Seen>) = ($got, $want);
                match (got.map(see), want) {
                    (Ok(g), Some(w)) if g == w => {}
                    (Err(_), None) => {}
                    (g, w) => fail!("{text} gives {g:?}, expected {w:?}"),
                }
            }};
        }
        match what {
            0 => {
                let (args, ok, t) = span(src, m.size);
                text = format!("slice {t} of buffer {b}, which becomes buffer {}", w.vals.len());
                note!(cx, "{text}");
                match (call(&mut w.vm, "slice", v, args, false), ok) {
                    (Ok(x), Some((o, l))) => {
                        let st = match m.st {
                            St::Null => St::Null,
                            St::Str(s, base) => St::Str(s, base + o),
                            _ => St::Slice(b, o),
                        };
                        let c = w.m.add(st, l, m.ro && !matches!(m.st, St::Null), true);
                        w.add(c, x);
                    }
                    (Err(_), None) => {}
                    (g, ok) => fail!("{text} gives {:?}, expected {ok:?}", g.map(see)),
                }
            }
            1 => {
                let t = src.pick(TYPES);
                let o = place(src, m.size.saturating_sub(t.1));
                text = format!("get_value {} {o} of buffer {b}", t.0);
                note!(cx, "{text}");
                let want = (|| all.clone()?.get(usize::try_from(o).ok()?..usize::try_from(o).ok()?.checked_add(t.1)?).map(|x| shown(x, t)))();
                is!(call(&mut w.vm, "get_value", v, vec![Value::symbol(t.0), Value::integer(o)], false), want);
            }
            2 => {
                let t = src.pick(TYPES);
                let o = place(src, m.size.saturating_sub(t.1));
                let raw: Vec<u8> = (0..t.1).map(|_| src.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0x55, 0x3f, 0xf0])).collect();
                let x = shown(&raw, t);
                let nan = matches!(x, Seen::Float(f) if f64::from_bits(f).is_nan());
                let xv = match &x {
                    Seen::Int(i) => Value::bigint(num::BigInt::from(*i)),
                    Seen::Float(f) => Value::float(f64::from_bits(*f)),
                    _ => unreachable!(),
                };
                if nan {
                    continue;
                }
                text = format!("set_value {} {o} {x:?} of buffer {b}", t.0);
                note!(cx, "{text}");
                let end = usize::try_from(o).ok().and_then(|o| o.checked_add(t.1)).filter(|e| *e <= m.size && all.is_some() && !m.ro);
                is!(call(&mut w.vm, "set_value", v, vec![Value::symbol(t.0), Value::integer(o), xv], false), end.map(|e| Seen::Int(e as i128)));
                if let Some(e) = end {
                    w.m.write(b, e - t.1, &raw);
                }
            }
            3 => {
                let t = src.pick(TYPES);
                let o = src.usize(m.size + 2);
                let most = all.as_ref().map_or(0, |a| a.len().saturating_sub(o) / t.1);
                let count = src.bool().then(|| src.usize(most + 1));
                text = format!("values {} {o} {count:?} of buffer {b}", t.0);
                note!(cx, "{text}");
                let list: Option<Vec<Seen>> = all.clone().map(|a| a.get(o..).unwrap_or(&[]).chunks_exact(t.1).take(count.unwrap_or(usize::MAX)).map(|x| shown(x, t)).collect());
                let mut args = vec![Value::symbol(t.0), Value::integer(o as i64)];
                args.extend(count.map(|c| Value::integer(c as i64)));
                if o > m.size {
                    continue;
                }
                if src.bool() {
                    is!(call(&mut w.vm, "values", v, args, false), list.map(Seen::List));
                } else {
                    w.vm.log.clear();
                    w.vm.script = (0..src.below(4)).map(|_| Step { act: Act::Nothing, collect: src.bool(), raise: false }).collect();
                    let r = call(&mut w.vm, "each", v, args, true);
                    ensure!(r.is_ok() == list.is_some(), "{text} with a block gives {:?}", r.map(see));
                    let want: Vec<Vec<Seen>> = list.unwrap_or_default().into_iter().enumerate().map(|(i, x)| vec![Seen::Int((o + i * t.1) as i128), x]).collect();
                    ensure!(w.vm.log == want, "{text} hands out {:?}, expected {want:?}", w.vm.log);
                    w.vm.script.clear();
                }
            }
            4 => {
                let (args, ok, t) = span(src, m.size);
                text = format!("get_string {t} of buffer {b}");
                note!(cx, "{text}");
                is!(call(&mut w.vm, "get_string", v, args, false), all.zip(ok).map(|(a, (o, l))| Seen::Bytes(a[o..o + l].to_vec())));
            }
            5 => {
                let o = place(src, m.size);
                let len = w.m.strings[s].len();
                let so = src.usize(len + 2);
                let sl = src.usize(len + 2);
                let k = src.below(4) as usize;
                text = format!("set_string of string {s} at {o} from {so} for {sl} ({k} of these given) in buffer {b}");
                note!(cx, "{text}");
                let mut args = vec![sv, Value::integer(o), Value::integer(so as i64), Value::integer(sl as i64)];
                args.truncate(1 + k);
                let (o, so) = (if k > 0 { o } else { 0 }, if k > 1 { so.min(len) } else { 0 });
                let sl = if k > 2 { sl.min(len - so) } else { len - so };
                let data = w.m.strings[s][so..so + sl].to_vec();
                let ok = usize::try_from(o).ok().filter(|o| o.checked_add(sl).is_some_and(|e| e <= m.size) && all.is_some() && !m.ro);
                is!(call(&mut w.vm, "set_string", v, args, false), ok.map(|_| Seen::Int(sl as i128)));
                if let Some(o) = ok {
                    w.m.write(b, o, &data);
                }
            }
            6 => {
                let (args, ok, t) = span(src, m.size);
                let x = src.pick(&[0i64, 1, 255, 256 + 7, -1]);
                text = format!("clear {x} {t} of buffer {b}");
                note!(cx, "{text}");
                let mut a = vec![Value::integer(x)];
                a.extend(args);
                let ok = ok.filter(|_| !m.ro);
                // clearing nothing in a view that is no longer there may be refused or not
                let r = call(&mut w.vm, "clear", v, a, false);
                if !(all.is_none() && ok.is_some_and(|x| x.1 == 0)) {
                    ensure!(r.is_ok() == (ok.is_some() && all.is_some()), "{text} gives {:?}", r.map(see));
                }
                if let (Some((o, l)), true) = (ok, all.is_some()) {
                    w.m.write(b, o, &vec![x as u8; l]);
                }
            }
            7 => {
                let size = if src.chance(1, 12) { place(src, 30).min(1 << 61) } else { src.below(40) as i64 };
                let huge = !(0..1 << 20).contains(&size);
                text = format!("resize of buffer {b} to {size}");
                note!(cx, "{text}");
                if (1 << 20..1 << 50).contains(&size) {
                    continue;
                }
                let r = call(&mut w.vm, "resize", v, vec![Value::integer(size)], false);
                ensure!(r.is_ok() == !(huge || (m.fixed && !matches!(m.st, St::Null))), "{text} gives {:?}", r.map(see));
                if r.is_ok() {
                    let mut x = all.unwrap();
                    x.resize(size as usize, 0);
                    w.m.bufs[b] = if size == 0 { MB { st: St::Null, size: 0, ro: false, fixed: false } } else { MB { st: St::Own(x), size: size as usize, ro: m.ro && !matches!(m.st, St::Null), fixed: false } };
                }
            }
            8 => {
                text = format!("free of buffer {b}");
                note!(cx, "{text}");
                ensure!(call(&mut w.vm, "free", v, vec![], false).is_ok(), "{text} is refused");
                w.m.bufs[b] = MB { st: St::Null, size: 0, ro: false, fixed: false };
            }
            9 => {
                text = format!("transfer of buffer {b}, which becomes buffer {}", w.vals.len());
                note!(cx, "{text}");
                let x = match call(&mut w.vm, "transfer", v, vec![], false) {
                    Ok(x) => x,
                    Err(e) => fail!("{text} raises {e:?}"),
                };
                w.m.bufs[b] = MB { st: St::Null, size: 0, ro: m.ro, fixed: false };
                let c = w.m.add(m.st.clone(), m.size, m.ro, m.fixed);
                w.add(c, x);
            }
            10 => {
                text = format!("buffer {b} is forgotten");
                note!(cx, "{text}");
                w.held.remove(at);
                w.roots();
                w.vm.collect();
            }
            11 | 12 => {
                let c = w.held[src.usize(w.held.len())];
                let mask = w.m.bytes(c);
                let op = src.usize(if what == 11 { 4 } else { 5 });
                let name = if what == 11 { ["&", "|", "^", "~"][op] } else { ["and!", "or!", "xor!", "not!", "<=>"][op] };
                text = format!("{name} of buffer {b} with buffer {c}");
                note!(cx, "{text}");
                let args = if op == 3 { vec![] } else { vec![w.vals[c]] };
                let r = call(&mut w.vm, name, v, args, false);
                if name == "<=>" {
                    let want = all.zip(mask).map(|(a, b)| (a.len().cmp(&b.len()).then(a.cmp(&b))) as i8 as i128);
                    is!(r, want.map(Seen::Int));
                    continue;
                }
                let mask = if op == 3 { Some(vec![0]) } else { mask.filter(|m| !m.is_empty()) };
                let out: Option<Vec<u8>> = all.clone().zip(mask).map(|(a, m)| a.iter().enumerate().map(|(i, x)| [x & m[i % m.len()], x | m[i % m.len()], x ^ m[i % m.len()], !x][op]).collect());
                if what == 11 {
                    match (r, out) {
                        (Ok(x), Some(o)) => {
                            let c = w.m.own(o);
                            w.add(c, x);
                        }
                        (Err(_), None) => {}
                        (r, o) => fail!("{text} gives {:?}, expected {o:?}", r.map(see)),
                    }
                } else {
                    let out = out.filter(|_| !m.ro);
                    ensure!(r.is_ok() == out.is_some(), "{text} gives {:?}, expected {out:?}", r.map(see));
                    if let Some(o) = out {
                        w.m.write(b, 0, &o);
                    }
                }
            }
            13 => {
                // what a lock forbids
                let (name, args) = src.pick(&[("free", 0usize), ("transfer", 0), ("resize", 1), ("locked", 0)]);
                let fails = src.chance(1, 4);
                text = format!("{name} of buffer {b} while it is locked");
                note!(cx, "{text}");
                let i = w.vm.vars.iter().position(|x| *x == v).unwrap();
                w.vm.script = vec![Step { act: Act::Nothing, collect: src.bool(), raise: false }];
                w.vm.hook = Some((name, (0..args).map(|_| Value::integer(3)).collect()));
                w.vm.hook_block = name == "locked";
                let r = call(&mut w.vm, "locked", v, vec![], true);
                w.vm.hook_block = false;
                w.vm.script.clear();
                ensure!(r.is_ok(), "locked gives {:?}", r.map(see));
                ensure!(w.vm.kept.take().is_some_and(|r| r.is_err()), "{text} is not refused");
                let l = see(call(&mut w.vm, "locked?", v, vec![], false).unwrap());
                ensure!(l == Seen::Bool(false), "buffer {b} stays locked");
            }
            14 => {
                let o = src.usize(m.size + 1);
                let c = src.usize(m.size + 2);
                text = format!("each_byte {o} {c} of buffer {b}");
                note!(cx, "{text}");
                w.vm.log.clear();
                let r = call(&mut w.vm, "each_byte", v, vec![Value::integer(o as i64), Value::integer(c as i64)], true);
                ensure!(r.is_ok() == all.is_some(), "{text} gives {:?}", r.map(see));
                if o + c <= m.size {
                    let want: Vec<Vec<Seen>> = all.unwrap_or_default().iter().skip(o).take(c).map(|x| vec![Seen::Int(*x as i128)]).collect();
                    ensure!(w.vm.log == want, "{text} hands out {:?}, expected {want:?}", w.vm.log);
                }
            }
            15 => {
                text = format!("string {s} changes");
                let x = blob(src, 30);
                note!(cx, "string {s} becomes {x:?}");
                sv.as_rstring_inner_mut2().replace(x.clone());
                w.m.strings[s] = x;
            }
            16 => {
                text = "a collection".to_string();
                note!(cx, "{text}");
                w.vm.collect();
            }
            _ => {
                text = format!("hexdump of buffer {b}");
                note!(cx, "{text}");
                let want = all.map(|a| {
                    let lines: Vec<String> = a.chunks(16).enumerate().map(|(i, c)| {
                        let hex: Vec<String> = c.iter().map(|b| format!("{b:02x}")).collect();
                        let txt: String = c.iter().map(|b| if (32..127).contains(b) { *b as char } else { '.' }).collect();
                        format!("0x{:08x}  {:<48}{txt}", i * 16, hex.join(" "))
                    }).collect();
                    Seen::Bytes(lines.join("\n").into_bytes())
                });
                is!(call(&mut w.vm, "hexdump", v, vec![], false), want);
            }
        }
        w.agree(&text)?;
    }
    if chained >= 2 {
        cx.nontrivial();
    }
    w.vm.vars.clear();
    fresh();
    Ok(())
}

/// Arguments run code of the program that changes the buffers and collects.
fn meddling(src: &mut Src, cx: &mut Cx) -> R {
    let mut w = start(src);
    for _ in 0..src.range(2, 4) {
        make(src, cx, &mut w)?;
        if let (Some(b), true) = (w.held.last().copied(), src.bool()) {
            let size = w.m.bufs[b].size;
            let o = src.usize(size + 1);
            let v = w.vals[b];
            let x = call(&mut w.vm, "slice", v, vec![Value::integer(o as i64)], false);
            if let Ok(x) = x {
                w.vals.push(x);
                w.m.bufs.push(MB { st: St::Null, size: size - o, ro: false, fixed: true });
                w.held.push(w.vals.len() - 1);
                w.roots();
            }
        }
    }
    if w.held.is_empty() {
        return Ok(());
    }
    let strings = w.strs.len();
    for _ in 0..src.range(1, 4) {
        let all = w.vm.vars.clone();
        let v = all[strings + src.usize(all.len() - strings)];
        let other = all[strings + src.usize(all.len() - strings)];
        let sv = all[src.usize(strings)];
        let number = |src: &mut Src| {
            let n = Value::integer(src.below(24) as i64);
            if src.bool() { Value::new(Obj::Number(n)) } else { n }
        };
        let big = |src: &mut Src| Value::bigint(num::BigInt::from(u64::MAX - src.below(3)));
        let t = Value::symbol(src.pick(TYPES).0);
        let (name, args, block) = match src.below(12) {
            0 => ("get_string", vec![number(src), number(src)], false),
            1 => ("set_string", vec![sv, number(src), number(src), number(src)], false),
            2 => ("get_value", vec![t, number(src)], false),
            3 => ("set_value", vec![t, number(src), if src.bool() { number(src) } else { big(src) }], false),
            4 => ("values", vec![t, number(src), number(src)], false),
            5 => ("each", vec![t, number(src)], true),
            6 => ("each_byte", vec![number(src), number(src)], true),
            7 => ("clear", vec![number(src), number(src), number(src)], false),
            8 => ("slice", vec![number(src), number(src)], false),
            9 => (src.pick(&["and!", "xor!", "&", "<=>"]), vec![other], false),
            10 => ("locked", vec![], true),
            _ => ("inspect", vec![], false),
        };
        let k = src.usize(5);
        w.vm.script = (0..k)
            .map(|_| {
                let on = strings + src.usize(all.len() - strings);
                let act = match src.below(7) {
                    0 => Act::Call(on, "free", vec![]),
                    1 => Act::Call(on, "resize", vec![src.below(30) as i64]),
                    2 => Act::Call(on, "transfer", vec![]),
                    3 => Act::Call(on, "clear", vec![7]),
                    4 | 5 => Act::Replace(src.usize(strings), blob(src, 30)),
                    _ => Act::Nothing,
                };
                Step { act, collect: src.bool(), raise: src.chance(1, 20) }
            })
            .collect();
        note!(cx, "{name} {:?} of variable {:?} with {:?}", args.iter().map(|v| see(*v)).collect::<Vec<_>>(), all.iter().position(|x| *x == v), w.vm.script);
        w.vm.log.clear();
        let r = call(&mut w.vm, name, v, args, block);
        if w.vm.log.len() >= 2 {
            cx.nontrivial();
        }
        w.vm.script.clear();
        if let Ok(r) = r {
            see(r);
            if name == "slice" {
                w.vm.vars.push(r);
            }
        }
        ensure!(w.vm.temp.is_empty(), "{name} leaves values put aside");
        w.vm.collect();
        for x in w.vm.vars.clone().into_iter().skip(strings) {
            let n = see(call(&mut w.vm, "size", x, vec![], false).unwrap());
            if let Ok(s) = call(&mut w.vm, "get_string", x, vec![], false).map(see) {
                ensure!(matches!((&s, &n), (Seen::Bytes(s), Seen::Int(n)) if s.len() as i128 == *n), "a buffer of size {n:?} reads as {s:?}");
            }
        }
    }
    w.vm.vars.clear();
    fresh();
    Ok(())
}

fn main() {
    pbt::main(&[Prop {
        id: "C59",
        rule: "histories of calls on buffers that own bytes, view strings and view each other, compared after every call with spans resolved from scratch, and calls whose arguments run code that frees, resizes and collects; non-trivial: at least two calls on views of buffers, or at least two runs of the program's code",
        assumptions: &["strings are stand-ins that hold plain bytes", "mapping files is not exercised", "which error is raised is not judged"],
        level: "exploration",
        suites: &[Suite { name: "views", cases: 250_000, run: views }, Suite { name: "meddling", cases: 300_000, run: meddling }],
        known: &[],
    }]);
}
