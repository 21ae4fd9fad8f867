//! C57: the methods of File that only take paths apart and put them together.

#![allow(dead_code, unused)]

include!("../../mounts/src/rstring/world.rs");
include!("interp.rs");
include!("text.rs");

mod conversions {
    use super::*;
    include!(concat!(env!("OUT_DIR"), "/coerce_path.rs"));
}
impl MonorubyErr {
    pub fn errno_with_msg(_: &Store, e: &std::io::Error, _: &str) -> MonorubyErr {
        MonorubyErr::Runtime(e.to_string())
    }
}
impl Value {
    pub fn array2(a: Value, b: Value) -> Value {
        Value::array_from_vec(vec![a, b])
    }
}
pub mod builtins {
    use super::*;
    include!("text_only.rs");
    pub mod io {
        use super::*;
        /// Text comes from outside as UTF-8.
        pub fn enc_default_external_obj(_: &mut Globals) -> Value {
            Value::nil()
        }
        pub fn enc_obj_to_enum(_: &Globals, _: Value) -> Option<Encoding> {
            Some(Encoding::Utf8)
        }
    }
    pub mod string {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/string_heads.rs"));
    }
    pub mod file {
        use super::*;
        include!(concat!(env!("OUT_DIR"), "/paths.rs"));
    }
}

const HOME: &str = "/home/me";

const ENCS: &[Encoding] = &[Encoding::Utf8, Encoding::Utf8, Encoding::UsAscii, Encoding::Ascii8, Encoding::EucJp, Encoding::Sjis(0)];

/// A name between slashes, of few characters, dots among them.
fn name(g: &mut Src, enc: Encoding) -> Vec<u8> {
    match g.below(8) {
        0 => b".".to_vec(),
        1 => b"..".to_vec(),
        2 => b"...".to_vec(),
        3 => g.pick(&[&b"a.b"[..], b".b", b"a.", b"a.b.b", b"..b", b"..a.b", b"a..", b"~"]).to_vec(),
        _ => (0..g.range(1, 4)).flat_map(|_| letter(g, enc, b"ab.")).collect(),
    }
}
fn slashes(g: &mut Src) -> Vec<u8> {
    vec![b'/'; g.weighted(&[0, 6, 1, 1])]
}
fn path(g: &mut Src, enc: Encoding) -> Vec<u8> {
    let mut p = if g.chance(1, 3) { slashes(g) } else { vec![] };
    for i in 0..g.len(4) {
        if i > 0 {
            p.extend(slashes(g));
        }
        p.extend(name(g, enc));
    }
    if g.chance(1, 4) {
        p.extend(slashes(g));
    }
    p
}

fn pieces(p: &[u8]) -> Vec<&[u8]> {
    p.split(|b| *b == b'/').filter(|n| !n.is_empty()).collect()
}
fn base(p: &[u8]) -> Vec<u8> {
    match pieces(p).last() {
        Some(n) => n.to_vec(),
        None => p[..p.len().min(1)].to_vec(),
    }
}
/// Everything before the last name and the slashes in front of it; the slashes a path starts with
/// are taken for one.
fn dir(p: &[u8]) -> Vec<u8> {
    let Some(last) = pieces(p).last().copied() else { return if p.is_empty() { b".".to_vec() } else { b"/".to_vec() } };
    let mut d = p;
    while d.ends_with(b"/") {
        d = &d[..d.len() - 1];
    }
    d = &d[..d.len() - last.len()];
    if d.is_empty() {
        return b".".to_vec();
    }
    while d.len() > 1 && d.ends_with(b"/") {
        d = &d[..d.len() - 1];
    }
    while d.starts_with(b"//") {
        d = &d[1..];
    }
    d.to_vec()
}
/// Where in a name its last extension starts. Dots at its start belong to the name.
fn ext_at(n: &[u8]) -> Option<usize> {
    let dots = n.iter().take_while(|b| **b == b'.').count();
    (dots..n.len()).rev().find(|i| n[*i] == b'.')
}
fn chop(n: &[u8], suffix: &[u8], enc: Encoding) -> Vec<u8> {
    if suffix == b".*" {
        return n[..ext_at(n).unwrap_or(n.len())].to_vec();
    }
    let (chars, tail) = (split_chars(n, enc), split_chars(suffix, enc));
    if chars.len() > tail.len() && chars.ends_with(&tail) { n[..n.len() - suffix.len()].to_vec() } else { n.to_vec() }
}
fn absolute(p: &[u8], dirs: &[Vec<u8>], home: bool) -> Vec<u8> {
    let tilde = home && (p == b"~" || p.starts_with(b"~/"));
    let (lead, mut at): (usize, Vec<Vec<u8>>) = if p.starts_with(b"/") {
        (p.iter().take_while(|b| **b == b'/').count(), vec![])
    } else if tilde {
        (1, pieces(HOME.as_bytes()).iter().map(|n| n.to_vec()).collect())
    } else {
        let whole = match dirs.split_first() {
            Some((d, rest)) => absolute(d, rest, home),
            None => std::os::unix::ffi::OsStrExt::as_bytes(std::env::current_dir().unwrap().as_os_str()).to_vec(),
        };
        (whole.iter().take_while(|b| **b == b'/').count(), pieces(&whole).iter().map(|n| n.to_vec()).collect())
    };
    for n in pieces(&p[tilde as usize..]) {
        match n {
            b"." => {}
            b".." => drop(at.pop()),
            n => at.push(n.to_vec()),
        }
    }
    [vec![b'/'; lead], at.join(&b'/')].concat()
}

/// What may be given to join.
enum Part {
    Text(Vec<u8>),
    List(Vec<Part>),
}
impl Part {
    fn any(g: &mut Src, enc: Encoding, deep: u32) -> Part {
        if deep < 3 && g.chance(1, 4) {
            let n = g.below(4);
            return Part::List((0..n).map(|_| Part::any(g, enc, deep + 1)).collect());
        }
        Part::Text(if g.chance(1, 5) { slashes(g) } else if g.chance(1, 6) { vec![] } else { path(g, enc) })
    }
    fn value(&self, enc: Encoding) -> Value {
        match self {
            Part::Text(t) => string(t, enc),
            Part::List(l) => Value::array_from_vec(l.iter().map(|p| p.value(enc)).collect()),
        }
    }
    fn show(&self) -> String {
        match self {
            Part::Text(t) => show(t),
            Part::List(l) => format!("[{}]", l.iter().map(Part::show).collect::<Vec<_>>().join(", ")),
        }
    }
    fn has_text(&self) -> bool {
        match self {
            Part::Text(_) => true,
            Part::List(l) => l.iter().any(Part::has_text),
        }
    }
    /// The texts in order; a list without any counts as an empty one.
    fn flat(&self) -> Vec<Vec<u8>> {
        match self {
            Part::Text(t) => vec![t.clone()],
            Part::List(l) if l.is_empty() => vec![vec![]],
            Part::List(l) => l.iter().flat_map(Part::flat).collect(),
        }
    }
}
fn joined(l: &[Part]) -> Vec<u8> {
    let mut parts = l.iter().flat_map(Part::flat);
    let mut out = parts.next().unwrap_or_default();
    for p in parts {
        if p.starts_with(b"/") {
            while out.ends_with(b"/") {
                out.pop();
            }
        } else if !out.ends_with(b"/") {
            out.push(b'/');
        }
        out.extend(p);
    }
    out
}

fn gives(what: &str, r: Result<Value>, want: &[u8], enc: Encoding) -> R {
    match r {
        Ok(v) => holds(v, want, enc).map_err(|e| format!("{what}: {e}")),
        Err(e) => Err(format!("{what}: {e:?}, expected {}", show(want))),
    }
}

fn apart(g: &mut Src, cx: &mut Cx) -> R {
    use builtins::file as f;
    let enc = g.pick(ENCS);
    let p = path(g, enc);
    let v = string(&p, enc);
    note!(cx, "{} in {enc:?}", show(&p));
    let b = base(&p);
    if pieces(&p).len() > 1 && ext_at(&b).is_some() {
        cx.nontrivial();
    }
    let none = Value::nil();
    gives("basename", call(f::file_basename, none, &[v]), &b, enc)?;
    let ext = if p.is_empty() || b == b"/" { vec![] } else { b[ext_at(&b).unwrap_or(b.len())..].to_vec() };
    gives("extname", call(f::file_extname, none, &[v]), &ext, enc)?;
    let suffix = match g.below(5) {
        0 => b".*".to_vec(),
        1 => b.clone(),
        2 => name(g, enc),
        3 => vec![],
        _ => {
            let c = split_chars(&b, enc);
            c[g.usize(c.len() + 1)..].concat()
        }
    };
    if !p.is_empty() {
        note!(cx, "suffix {}", show(&suffix));
        let want = if suffix.is_empty() || b == b"/" { b.clone() } else { chop(&b, &suffix, enc) };
        gives("basename without suffix", call(f::file_basename, none, &[v, string(&suffix, enc)]), &want, enc)?;
    }
    match call(f::file_split, none, &[v]).map(|v| v.try_array_ty()) {
        Ok(Some(l)) if l.len() == 2 => {
            gives("the first part of split", Ok(l[0]), &dir(&p), enc)?;
            gives("the second part of split", Ok(l[1]), &b, enc)?;
        }
        _ => fail!("split failed"),
    }
    // Names are put together again to the same place.
    let again = joined(&[Part::Text(dir(&p)), Part::Text(b.clone())]);
    same!(absolute(&again, &[], false), absolute(&p, &[], false).into_iter().skip(p.iter().take_while(|b| **b == b'/').count().saturating_sub(1)).collect::<Vec<_>>(), "the model itself");
    match call(f::absolute_path_, none, &[v]) {
        Ok(v) => same!(v.as_bool(), p.starts_with(b"/"), "absolute_path?"),
        // a path that is no text of its encoding
        Err(e) => ensure!(std::str::from_utf8(&p).is_err() || enc != Encoding::Utf8, "absolute_path?: {e:?}"),
    }
    // What no system takes as a path is refused.
    let mut bad = p.clone();
    bad.insert(g.usize(p.len() + 1), 0);
    let bad = string(&bad, enc);
    for (n, f) in [("basename", f::file_basename as Method), ("extname", f::file_extname), ("split", f::file_split), ("expand_path", f::file_expand_path), ("absolute_path", f::absolute_path)] {
        ensure!(matches!(call(f, none, &[bad]), Err(MonorubyErr::Argument(_))), "{n} takes a path with a null byte");
    }
    ensure!(matches!(call_rest(f::file_join, none, &[v, bad]), Err(MonorubyErr::Argument(_))), "join takes a path with a null byte");
    Ok(())
}

fn together(g: &mut Src, cx: &mut Cx) -> R {
    use builtins::file as f;
    let enc = g.pick(ENCS);
    let none = Value::nil();
    let n = g.below(5);
    let parts: Vec<Part> = (0..n).map(|_| Part::any(g, enc, 0)).collect();
    note!(cx, "join {} in {enc:?}", parts.iter().map(Part::show).collect::<Vec<_>>().join(", "));
    let got = call_rest(f::file_join, none, &parts.iter().map(|p| p.value(enc)).collect::<Vec<_>>());
    let any_text = parts.iter().any(Part::has_text);
    gives("join", got, &joined(&parts), if any_text { enc } else { Encoding::Utf8 })?;
    if g.chance(1, 20) {
        // the homes of other users
        let p = path(g, enc);
        let p = if p.starts_with(b"/") || p.is_empty() { p } else { [b"/".to_vec(), p].concat() };
        let (known, other) = ([b"~root".to_vec(), p.clone()].concat(), [b"~nobody-of-this-name".to_vec(), p.clone()].concat());
        note!(cx, "path {}", show(&known));
        let user = unsafe { libc::getpwnam(c"root".as_ptr()) };
        if !user.is_null() {
            let home = unsafe { std::ffi::CStr::from_ptr((*user).pw_dir) }.to_bytes().to_vec();
            gives("expand_path", call(f::file_expand_path, none, &[string(&known, enc)]), &absolute(&[home, p].concat(), &[], false), enc)?;
        }
        ensure!(matches!(call(f::file_expand_path, none, &[string(&other, enc)]), Err(MonorubyErr::Argument(_))), "expand_path takes an unknown user");
    }
    let (mut p, mut d) = (path(g, enc), path(g, enc));
    for x in [&mut p, &mut d] {
        if g.chance(1, 6) {
            *x = [b"~/".to_vec(), std::mem::take(x)].concat();
        } else if x.starts_with(b"~") && x.get(1).is_some_and(|b| *b != b'/') {
            // of other users nothing is asked
            x.remove(0);
        }
    }
    let (with, sub) = (g.chance(2, 3), pieces(&p).contains(&&b".."[..]));
    let dirs = if with { vec![d.clone()] } else { vec![] };
    note!(cx, "path {} at {}", show(&p), if with { show(&d) } else { "no other".into() });
    if with && sub && !p.starts_with(b"/") {
        cx.nontrivial();
    }
    let mut args = vec![string(&p, enc)];
    args.extend(dirs.iter().map(|d| string(d, enc)));
    gives("expand_path", call(f::file_expand_path, none, &args), &absolute(&p, &dirs, true), enc)?;
    gives("absolute_path", call(f::absolute_path, none, &args), &absolute(&p, &dirs, false), enc)?;
    Ok(())
}

const PROP: Prop = Prop {
    id: "C57",
    rule: "a path of several names of which the last has an extension (apart); a relative path with .. against a given directory (together)",
    assumptions: &["File.dirname, which is written in Ruby, is left out"],
    level: "exploration",
    suites: &[Suite { name: "apart", cases: 1_500_000, run: apart }, Suite { name: "together", cases: 1_500_000, run: together }],
    known: &[],
};

fn main() {
    // before any other thread is there
    unsafe { std::env::set_var("HOME", HOME) }
    pbt::main(&[PROP]);
}
