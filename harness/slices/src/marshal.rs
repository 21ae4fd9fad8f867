//! C60: what Marshal writes reads back as the same graph of objects, and odd bytes are refused.
#![allow(dead_code, unused)]
use pbt::*;
include!("marshal_world.rs");

fn at(g: &mut Src, lo: i64, hi: i64) -> i64 {
    lo + g.below((hi - lo + 1) as u64) as i64
}
fn sym(g: &mut Src) -> IdentId {
    match g.weighted(&[8, 2, 1]) {
        0 => IdentId::get_id(g.pick(&["a", "b", "@a", "@b", "E", "encoding", "Foo", "long_name"])),
        1 => IdentId::get_id(g.pick(&["é", "@あ"])),
        _ => IdentId::get_id_from_bytes(vec![0xff, g.u8()], Encoding::Ascii8),
    }
}
fn ivar(g: &mut Src) -> IdentId {
    IdentId::get_id(g.pick(&["@a", "@b", "@c", "@あ", "@encoding"]))
}
fn text(g: &mut Src) -> RStringInner {
    let enc = g.pick(&[Encoding::Utf8, Encoding::Utf8, Encoding::Ascii8, Encoding::UsAscii]);
    let n = if g.chance(1, 20) { g.range(120, 300) } else { g.len(6) };
    let b = (0..n).map(|_| if enc == Encoding::UsAscii || g.bool() { g.pick(b"ab0") } else { g.u8() }).collect();
    RStringInner(b, enc)
}
fn int(g: &mut Src) -> BigInt {
    let i = match g.below(6) {
        0 => BigInt::from(at(g, -130, 130)),
        1 => BigInt::from(1) << g.usize(100),
        2 => BigInt::from(g.pick(&[0x3fff_ffffi64, 0x4000_0000, 0xff, 0x100, 0xffff, 0x1_0000, 0xff_ffff, 0x100_0000])),
        3 => BigInt::from(g.u64() >> g.usize(64)),
        4 => BigInt::from(i64::MAX >> g.usize(3)),
        _ => BigInt::from(g.u64()) * BigInt::from(g.u64()),
    } + at(g, -2, 2);
    if g.bool() { -i } else { i }
}
fn float(g: &mut Src) -> f64 {
    match g.below(6) {
        0 => g.pick(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]),
        1 => at(g, -1000, 1000) as f64 / g.pick(&[1.0, 4.0, 10.0, 1000.0, 1e6]),
        2 => format!("{}e{}", at(g, -9999, 9999), at(g, -320, 305)).parse().unwrap(),
        3 => at(g, -99, 99) as f64 * 10f64.powi(at(g, 0, 22) as i32),
        _ => f64::from_bits(g.u64()),
    }
}

struct Made {
    /// What may be met again.
    all: Vec<Value>,
    left: usize,
    again: usize,
}
/// An end of a range, which leads nowhere else.
fn end(g: &mut Src, m: &mut Made) -> Value {
    let known: Vec<Value> = m.all.iter().copied().filter(|v| !v.heap() || matches!(v.o().kind, Kind::Str(_) | Kind::Big(_) | Kind::Float(_)) && v.o().ivars.is_empty()).collect();
    match g.below(5) {
        0 => Value::nil(),
        1 => Value::bigint(int(g)),
        2 => Value::float(float(g)),
        3 if !known.is_empty() => g.pick(&known),
        _ => {
            let v = Value::string_from_inner(text(g));
            m.all.push(v);
            v
        }
    }
}
fn value(g: &mut Src, m: &mut Made) -> Value {
    if !m.all.is_empty() && g.chance(3, 10) {
        m.again += 1;
        return g.pick(&m.all);
    }
    if m.left == 0 {
        return Value::integer(at(g, -3, 300));
    }
    m.left -= 1;
    let v = match g.weighted(&[2, 4, 3, 3, 8, 6, 5, 2, 2, 3, 3, 3, 2, 2, 2, 2]) {
        0 => return g.pick(&[Value::nil(), Value::bool(true), Value::bool(false)]),
        1 => Value::bigint(int(g)),
        2 => Value::float(float(g)),
        3 => return Value::symbol(sym(g)),
        4 => {
            let mut v = Value::string_from_inner(text(g));
            if g.chance(1, 6) {
                v.change_class(STR2);
            }
            v
        }
        5 => {
            let v = Value::array_empty();
            if g.chance(1, 8) {
                v.o().class = ARY2;
            }
            if g.bool() {
                m.all.push(v);
            }
            for _ in 0..g.len(5) {
                let e = value(g, m);
                v.as_array().push(e);
            }
            v
        }
        6 => {
            let v = Value::hash(RubyMap::default());
            if g.chance(1, 8) {
                v.o().class = HSH2;
            }
            v.as_hashmap_inner().by_identity = g.chance(1, 5);
            if g.bool() {
                m.all.push(v);
            }
            let (mut vm, mut gl) = (Executor::default(), globals());
            for _ in 0..g.len(4) {
                let (k, e) = (value(g, m), value(g, m));
                v.as_hash().insert(k, e, &mut vm, &mut gl).unwrap();
            }
            if g.chance(1, 4) {
                let d = value(g, m);
                v.as_hashmap_inner().default = Some(d);
            }
            v
        }
        7 => Value::range(end(g, m), end(g, m), g.bool()),
        8 => Value::regexp(RegexpInner(g.pick(&["", "a", "é.", "(b)"]).as_bytes().to_vec(), g.below(8) as u32)),
        9 => {
            let v = Value::struct_object(PAIR, 2);
            m.all.push(v);
            for i in 0..2 {
                let e = value(g, m);
                { v }.set_struct_slot(i, e);
            }
            v
        }
        10 => Value::object(g.pick(&[FOO, FOO, ELAN])),
        11 => {
            let v = Value::object(KEEPER);
            m.all.push(v);
            let c = value(g, m);
            v.o().ivars.push((IdentId::get_id("@contents"), c));
            return v;
        }
        12 => {
            let v = Value::object(TELLER);
            let c = Value::string_from_inner(text(g));
            v.o().ivars.push((IdentId::get_id("@contents"), c));
            m.all.push(v);
            return v;
        }
        13 => return Module::Plain(g.pick(&[FOO, STRING_CLASS, MIX, ELAN])).as_val(),
        14 => {
            let v = Value::new(RATIONAL, Kind::Rational(Value::integer(at(g, -9, 9)), Value::integer(at(g, 1, 9))));
            m.all.push(v);
            return v;
        }
        _ => {
            let bt = if g.bool() { Value::nil() } else { Value::array_from_vec(vec![Value::string_from_str("f:1")]) };
            let c = g.pick(&[EXCEPTION_CLASS, OOPS]);
            Value::new(c, Kind::Exception(ExceptionInner(g.pick(&["", "no", "Oops", "é"]).to_string()), bt))
        }
    };
    // An exception is not met again inside itself.
    let whole = v.heap() && matches!(v.o().kind, Kind::Exception(..));
    if !whole {
        m.all.push(v);
    }
    let carries = v.heap() && !v.is_packed_value() && !matches!(v.o().kind, Kind::Big(_) | Kind::Range(_));
    if carries {
        if g.chance(1, 4) || matches!(v.o().kind, Kind::Plain) {
            for _ in 0..g.range(1, 2) {
                let (n, e) = (ivar(g), value(g, m));
                globals().set_ivar(v, n, e).unwrap();
            }
        }
        if g.chance(1, 8) && !whole {
            v.o().mixed.push(g.pick(&[MIX, MORE]));
            if g.chance(1, 3) {
                v.o().mixed = vec![MIX, MORE];
            }
        }
    }
    if whole {
        m.all.push(v);
    }
    v
}
fn globals() -> Globals {
    Globals { store: Store, main_object: Value::nil(), methods: HashMap::new() }
}

/// How two graphs differ.
struct Pairing {
    there: HashMap<u64, u64>,
    back: HashMap<u64, u64>,
}
impl Pairing {
    fn differ(&mut self, a: Value, b: Value) -> Option<String> {
        if !a.heap() || !b.heap() {
            return (a != b).then(|| format!("{} became {}", show(a), show(b)));
        }
        let kind = |what: &str| Some(format!("{what}: {} became {}", show(a), show(b)));
        let (x, y) = (a.o(), b.o());
        match (&x.kind, &y.kind) {
            (Kind::Float(p), Kind::Float(q)) => {
                return if p.to_bits() == q.to_bits() || p.is_nan() && q.is_nan() { None } else { kind("float") };
            }
            (Kind::Big(p), Kind::Big(q)) => return if p == q { None } else { kind("integer") },
            _ => {}
        }
        let (t, k) = (self.there.insert(a.0, b.0), self.back.insert(b.0, a.0));
        if t.is_some() || k.is_some() {
            return if t == Some(b.0) && k == Some(a.0) { None } else { kind("which object it is") };
        }
        if x.class != y.class {
            return kind("class");
        }
        if x.mixed != y.mixed {
            return kind("modules");
        }
        let ok = match (&x.kind, &y.kind) {
            (Kind::Str(p), Kind::Str(q)) => p == q,
            (Kind::Arr(p), Kind::Arr(q)) => p.len() == q.len(),
            (Kind::Hash(p), Kind::Hash(q)) => p.pairs.len() == q.pairs.len() && p.by_identity == q.by_identity && p.default.is_some() == q.default.is_some(),
            (Kind::Range(p), Kind::Range(q)) => p.2 == q.2,
            (Kind::Regexp(p), Kind::Regexp(q)) => p == q,
            (Kind::Exception(p, _), Kind::Exception(q, _)) => p.0 == q.0,
            (Kind::Class(p), Kind::Class(q)) => p == q,
            (p, q) => std::mem::discriminant(p) == std::mem::discriminant(q),
        };
        if !ok {
            return kind("contents");
        }
        if !x.ivars.iter().map(|i| i.0).eq(y.ivars.iter().map(|i| i.0)) {
            return kind("instance variables");
        }
        let (mut p, mut q) = (vec![], vec![]);
        parts(a, &mut p);
        parts(b, &mut q);
        p.into_iter().zip(q).find_map(|(p, q)| self.differ(p, q))
    }
}
fn show(v: Value) -> String {
    let mut out = String::new();
    shown(v, 5, &mut out);
    out
}
fn shown(v: Value, deep: usize, out: &mut String) {
    use std::fmt::Write;
    if let Some(i) = v.try_symbol() {
        let _ = write!(out, ":{}", i.get_name());
        return;
    }
    if !v.heap() {
        let _ = match v.try_fixnum() {
            Some(i) => write!(out, "{i}"),
            None if v.is_nil() => write!(out, "nil"),
            None => write!(out, "{}", v.as_bool()),
        };
        return;
    }
    if unsafe { (*(v.0 as *const Obj)).dead } {
        out.push_str("(collected)");
        return;
    }
    let o = v.o();
    let _ = match &o.kind {
        Kind::Big(b) => return write!(out, "{b}").unwrap(),
        Kind::Float(f) => return write!(out, "{f:?}").unwrap(),
        Kind::Class(c) => return write!(out, "{}", CLASSES[c.0 as usize].0).unwrap(),
        Kind::Str(s) => write!(out, "{}#{:x}({:?} {:?})", CLASSES[o.class.0 as usize].0, v.0 >> 4 & 0xffff, String::from_utf8_lossy(&s.0), s.1),
        Kind::Regexp(r) => write!(out, "/{}/{}", String::from_utf8_lossy(&r.0), r.1),
        Kind::Exception(r, _) => write!(out, "{}({:?})", CLASSES[o.class.0 as usize].0, r.0),
        Kind::Hash(h) if h.by_identity => write!(out, "{}#{:x} by identity", CLASSES[o.class.0 as usize].0, v.0 >> 4 & 0xffff),
        _ => write!(out, "{}#{:x}", CLASSES[o.class.0 as usize].0, v.0 >> 4 & 0xffff),
    };
    for m in &o.mixed {
        let _ = write!(out, "+{}", CLASSES[m.0 as usize].0);
    }
    let mut p = vec![];
    parts(v, &mut p);
    if !p.is_empty() {
        out.push('<');
        for i in p {
            if deep == 0 || out.len() > 600 {
                out.push_str("..");
                break;
            }
            shown(i, deep - 1, out);
            out.push(' ');
        }
        out.push('>');
    }
}

fn round(g: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let mut m = Made { all: vec![], left: g.range(1, 14), again: 0 };
    let v = value(g, &mut m);
    let how = g.below(4);
    let mut vm = Executor::default();
    vm.held.push(v);
    if how > 0 {
        vm.collecting = if g.bool() { !0 } else { g.u64() };
        vm.again = g.bool();
    }
    note!(cx, "dump {}", show(v));
    let d = match catch(|| call(&mut vm, "dump", [Some(v), None, None])) {
        Ok(Ok(d)) => d,
        Ok(Err(e)) => fail!("dump refused: {}", e.0),
        Err(p) => fail!("dump panicked: {p}"),
    };
    ensure!(!GONE.with(|g| g.get()), "dump uses what was collected");
    vm.held.push(d);
    let bytes = d.expect_bytes(&Store).unwrap().to_vec();
    note!(cx, "bytes {}", bytes.escape_ascii());
    let proc = if how > 1 { Some(Value::new(OBJECT_CLASS, Kind::Proc)) } else { None };
    vm.replacing = how == 3;
    let freeze = g.chance(1, 5);
    let args = [Some(d), proc, freeze.then(|| Value::bool(true))];
    let l = match catch(|| call(&mut vm, g.pick(&["load", "load", "restore"]), args)) {
        Ok(Ok(l)) => l,
        Ok(Err(e)) => fail!("load refused: {}", e.0),
        Err(p) => fail!("load panicked: {p}"),
    };
    let mut pairing = Pairing { there: HashMap::new(), back: HashMap::new() };
    // With copies of strings in their place, only that everything is still there.
    let loose = vm.replacing || inside_itself(v);
    match catch(|| if loose { walk(l).map(show) } else { pairing.differ(v, l) }) {
        Ok(None) => {}
        Ok(Some(d)) => fail!("loaded {}: {d}", show(l)),
        Err(p) => fail!("the loaded value: {p}"),
    }
    ensure!(!GONE.with(|g| g.get()), "load uses or gives out what was collected");
    if freeze && !vm.replacing && l.heap() && l.is_class_or_module().is_none() && !l.is_packed_value() {
        ensure!(l.o().frozen, "{} is not frozen", show(l));
    }
    if m.again > 0 {
        cx.label("shared");
        cx.nontrivial();
    }
    if vm.calls > 0 {
        cx.label("ran code");
    }
    Ok(())
}

/// The classes of values that fit what a value is made of.
fn fits(v: Value) -> bool {
    let o = v.o();
    let mut c = o.class.0;
    let base = match &o.kind {
        Kind::Str(_) => 1,
        Kind::Arr(_) => 2,
        Kind::Hash(_) => 3,
        Kind::Range(_) => 4,
        Kind::Exception(..) => 5,
        Kind::Regexp(_) => 6,
        Kind::Struct(_) => 7,
        _ => return true,
    };
    while c != 0 {
        if c == base {
            return true;
        }
        c = CLASSES[c as usize].1;
    }
    false
}

/// Whether a range or an exception is met again inside itself.
fn inside_itself(v: Value) -> bool {
    let reach = |from: Vec<Value>| {
        let (mut todo, mut seen) = (from, HashSet::new());
        while let Some(v) = todo.pop() {
            if v.heap() && seen.insert(v.0) {
                parts(v, &mut todo);
            }
        }
        seen
    };
    reach(vec![v]).into_iter().map(Value).any(|v| {
        matches!(v.o().kind, Kind::Range(_) | Kind::Exception(..)) && {
            let mut p = vec![];
            parts(v, &mut p);
            reach(p).contains(&v.0)
        }
    })
}

/// The first value whose class does not fit.
fn walk(v: Value) -> Option<Value> {
    let (mut todo, mut seen) = (vec![v], HashSet::new());
    while let Some(v) = todo.pop() {
        if v.heap() && seen.insert(v.0) {
            if !fits(v) {
                return Some(v);
            }
            parts(v, &mut todo);
        }
    }
    None
}

fn odd(g: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let mut vm = Executor::default();
    let mut bytes = if g.chance(3, 4) {
        let mut m = Made { all: vec![], left: g.range(1, 8), again: 0 };
        let v = value(g, &mut m);
        match catch(|| call(&mut vm, "dump", [Some(v), None, None])) {
            Ok(Ok(d)) => d.expect_bytes(&Store).unwrap().to_vec(),
            _ => return Ok(()),
        }
    } else {
        let mut b = vec![4, 8];
        b.extend((0..g.len(12)).map(|_| if g.bool() { g.pick(b"iIlf\":;[{}@ouUdCe/ScmM0TF\x00\x01\x02\x04\x06\x07\xff\xfc\xfa") } else { g.u8() }));
        b
    };
    for _ in 0..g.range(1, 3) {
        let at: usize = if bytes.len() > 2 && !g.chance(1, 30) { g.usize(bytes.len() - 2) + 2 } else { 0 };
        match g.below(5) {
            0 => bytes.truncate(at),
            1 if at < bytes.len() => bytes[at] = g.u8(),
            2 if at < bytes.len() => bytes[at] = g.pick(b"iIlf\":;[{}@ouUdCe/ScmM\x00\x01\x04\xff\xfc\xfa\x80\x7f"),
            3 if at < bytes.len() => {
                bytes.remove(at);
            }
            _ if at <= bytes.len() => {
                let len = [&b"\x04\xff\xff\xff\x7f"[..], b"\x04\xff\xff\xff\xff", b"\xfc\x00\x00\x00\x80", b"\xfa", b"\xff\x00", b"\x04\x00\x00\x00\x40"];
                let put: &[u8] = if g.bool() { g.pick(&len) } else { g.pick(&[&b"I"[..], b"C:\x08Foo", b"e:\x08Mix", b"C:\x0aArray", b"@\x06", b";\x00", b"C:\x09Str2", b"o:\x08Foo"]) };
                bytes.splice(at..at, put.iter().copied());
            }
            _ => {}
        }
    }
    note!(cx, "load {}", bytes.escape_ascii());
    vm.collecting = if g.bool() { !0 } else { 0 };
    let proc = if g.chance(1, 4) { Some(Value::new(OBJECT_CLASS, Kind::Proc)) } else { None };
    let d = Value::bytes(bytes);
    let l = match catch(|| call(&mut vm, "load", [Some(d), proc, None])) {
        Ok(Ok(l)) => {
            cx.label("loaded");
            l
        }
        Ok(Err(_)) => {
            cx.label("refused");
            cx.nontrivial();
            return Ok(());
        }
        Err(p) => fail!("load panicked: {p}"),
    };
    cx.nontrivial();
    match catch(|| walk(l)) {
        Ok(None) if GONE.with(|g| g.get()) => fail!("load uses or gives out what was collected"),
        Ok(None) => Ok(()),
        Ok(Some(v)) => fail!("{} has a class that its contents do not fit", show(v)),
        Err(p) => fail!("the loaded value: {p}"),
    }
}

fn length(n: i64, out: &mut Vec<u8>) {
    match n {
        0 => out.push(0),
        1..=122 => out.push(n as u8 + 5),
        -123..=-1 => out.push((n - 5) as u8),
        _ => {
            // As few bytes as tell it from what a shorter form stands for.
            let k = (1..=4).find(|k| n >> (8 * k) == if n < 0 { -1 } else { 0 }).unwrap();
            out.push(if n < 0 { (-k) as u8 } else { k as u8 });
            out.extend_from_slice(&n.to_le_bytes()[..k as usize]);
        }
    }
}
/// Numbers as CRuby writes them.
fn numbers(g: &mut Src, cx: &mut Cx) -> R {
    free_all();
    let mut want = vec![4, 8];
    let v = if g.bool() {
        let f = float(g);
        let mut t = String::new();
        if f.is_nan() {
            t += "nan";
        } else {
            if f.is_sign_negative() {
                t += "-";
            }
            if f.is_infinite() {
                t += "inf";
            } else if f == 0.0 {
                t += "0";
            } else {
                let e = format!("{:e}", f.abs());
                let (m, e) = e.split_once('e').unwrap();
                let (d, at) = (m.replace('.', ""), e.parse::<i32>().unwrap() + 1);
                let n = d.len() as i32;
                if at < -3 || at > n {
                    t += &d[..1];
                    if n > 1 {
                        t += ".";
                    }
                    t += &d[1..];
                    t += &format!("e{}", at - 1);
                } else if at > 0 {
                    t += &d[..at as usize];
                    if n > at {
                        t += ".";
                    }
                    t += &d[at as usize..];
                } else {
                    t += "0.";
                    t += &"0".repeat(-at as usize);
                    t += &d;
                }
                cx.nontrivial();
            }
        }
        want.push(b'f');
        length(t.len() as i64, &mut want);
        want.extend(t.bytes());
        note!(cx, "float {f:e}");
        Value::float(f)
    } else {
        use num::ToPrimitive;
        let i = int(g);
        note!(cx, "integer {i}");
        match i.to_i64() {
            Some(n) if (-(1 << 30)..1 << 30).contains(&n) => {
                want.push(b'i');
                length(n, &mut want);
            }
            _ => {
                let minus = i < BigInt::from(0);
                want.extend([b'l', if minus { b'-' } else { b'+' }]);
                let (mut rest, mut words, base) = (if minus { -i.clone() } else { i.clone() }, vec![], BigInt::from(1 << 16));
                while rest > BigInt::from(0) {
                    words.push((&rest % &base).to_u64().unwrap() as u16);
                    rest = rest / &base;
                }
                length(words.len() as i64, &mut want);
                want.extend(words.iter().flat_map(|w| w.to_le_bytes()));
                cx.nontrivial();
            }
        }
        Value::bigint(i)
    };
    match catch(|| call(&mut Executor::default(), "dump", [Some(v), None, None])) {
        Ok(Ok(d)) => {
            let got = d.expect_bytes(&Store).unwrap();
            ensure!(got == want, "written as {}, CRuby writes {}", got.escape_ascii(), want.escape_ascii());
            Ok(())
        }
        Ok(Err(e)) => fail!("dump refused: {}", e.0),
        Err(p) => fail!("dump panicked: {p}"),
    }
}

fn main() {
    pbt::main(&[Prop {
        id: "C60",
        level: "exploration",
        rule: "graphs of objects with shared and cyclic parts, written and read back, with collections whenever the program's code runs; and written bytes altered before reading; non-trivial: an object is met more than once, the bytes were altered, or a number takes more than a short integer",
        assumptions: &[
            "values, classes and the collector are stand-ins: strings with bytes and an encoding, hashes as lists of pairs, a fixed set of classes and modules",
            "times, complex numbers, subclasses of ranges, singleton methods and nested constant paths are not generated",
            "strings and symbols are in UTF-8, US-ASCII or binary; the name of another encoding takes a place among the linked objects when read but not when written",
            "ranges and exceptions that contain themselves are left out: they come back with a stand-in inside",
            "which error is raised and what the proc is called with are not judged",
            "depth of nesting is small: exhausting the stack is not explored",
        ],
        suites: &[Suite { name: "numbers", cases: 500_000, run: numbers }, Suite { name: "round", cases: 2_000_000, run: round }, Suite { name: "odd", cases: 2_500_000, run: odd }],
        known: &[],
    }]);
}
