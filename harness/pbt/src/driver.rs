use crate::src::{fnv, mix};
use crate::{Cx, Prop, R, Src, Suite, THOROUGH};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::AssertUnwindSafe;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::time::{Duration, Instant};

const WORKERS: u64 = 8;
/// A single case that makes no progress for this long is an error of the check.
const HANG_S: u64 = 120;
/// The check gives up (as an error) after this long.
const TOTAL_S: u64 = 840;
const SAMPLES: usize = 3;
const SAMPLE_LINES: usize = 30;

thread_local! {
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

fn install_hook() {
    let verbose = std::env::var_os("PBT_VERBOSE").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic with an opaque payload".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST.with(|l| *l.borrow_mut() = format!("panicked at {loc}: {msg}"));
        if verbose || QUIET.with(|q| *q.borrow() == 0) {
            eprintln!("panicked at {loc}: {msg}");
        }
    }));
}

pub(crate) fn quiet_catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|_| LAST.with(|l| l.borrow().clone()))
}

fn run_case(suite: &Suite, src: &mut Src, cx: &mut Cx) -> R {
    match quiet_catch(|| (suite.run)(src, cx)) {
        Ok(r) => r,
        Err(m) => Err(m),
    }
}

fn case_seed(prop: &Prop, suite: &Suite, seed: u64, i: u64) -> u64 {
    mix(&[seed, fnv(prop.id), fnv(suite.name), i])
}

struct Env {
    root: PathBuf,
    seed: u64,
    thorough: bool,
}

fn env() -> Env {
    let root = std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| std::env::current_dir().unwrap());
    let seed = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    Env {
        root,
        seed,
        thorough,
    }
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("no such property: {id}");
            std::process::exit(2)
        }
    }
}

fn find_suite<'a>(p: &'a Prop, name: &str) -> &'a Suite {
    match p.suites.iter().find(|s| s.name == name) {
        Some(s) => s,
        None => {
            eprintln!("no such suite: {name}");
            std::process::exit(2)
        }
    }
}

fn cases(s: &Suite, e: &Env) -> u64 {
    let scale = std::env::var("PBT_SCALE")
        .ok()
        .and_then(|s| s.parse::<f64>().ok())
        .unwrap_or(1.0);
    let n = s.cases * if e.thorough { THOROUGH } else { 1 };
    ((n as f64 * scale) as u64).max(1)
}

/// Entry point of every check binary.
pub fn main(props: &[Prop]) {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let e = env();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("--worker") => worker(props, &e, &args[2..]),
        Some("--record") => record(props, &e, &args[2..]),
        Some("--try") => try_one(props, &e, &args[2..]),
        Some("--shrink") => shrink_inproc(props, &e, &args[2..]),
        Some("--replay") => replay(props, &e, &args[2]),
        Some("--list") => {
            for p in props {
                println!("{}", p.id);
            }
            0
        }
        Some(id) => check(find(props, id), &e),
        None => {
            eprintln!("usage: {} <property id> | --replay <file>", args[0]);
            2
        }
    };
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

// ---------------------------------------------------------------- workers

/// `--worker ID w dir`
fn worker(props: &[Prop], e: &Env, a: &[String]) -> i32 {
    let prop = find(props, &a[0]);
    let w: u64 = a[1].parse().unwrap();
    let dir = PathBuf::from(&a[2]);
    let only = std::env::var("PBT_SUITE").ok();
    let status = fs::File::create(dir.join(format!("status{w}"))).unwrap();
    let mut digests: Vec<u8> = vec![];
    let mut out = String::new();
    let mut samples = String::new();
    let mut failed = false;
    'suites: for (si, s) in prop.suites.iter().enumerate() {
        if only.as_deref().is_some_and(|o| o != s.name) {
            continue;
        }
        let n = cases(s, e);
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        let (mut evals, mut nontriv, mut nsamples) = (0u64, 0u64, 0usize);
        let mut seen = HashSet::new();
        let mut i = w;
        while i < n {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(si as u64).to_le_bytes());
            b[8..].copy_from_slice(&i.to_le_bytes());
            let _ = status.write_at(&b, 0);
            let mut src = Src::generate(case_seed(prop, s, e.seed, i));
            let mut cx = Cx::new(false, e.thorough);
            let r = run_case(s, &mut src, &mut cx);
            evals += 1;
            for (l, c) in cx.labels {
                *labels.entry(l).or_insert(0) += c;
            }
            if cx.nontrivial {
                nontriv += 1;
                let mut h = fnv(s.name);
                for d in &src.drawn {
                    h = (h ^ d).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
                }
                if seen.insert(h) {
                    digests.extend_from_slice(&h.to_le_bytes());
                }
                if w == 0 && nsamples < SAMPLES && r.is_ok() {
                    nsamples += 1;
                    let mut s2 = Src::replay(src.drawn.clone());
                    let mut c2 = Cx::new(true, e.thorough);
                    let _ = run_case(s, &mut s2, &mut c2);
                    samples.push_str(&format!("@{} case {i}\n", s.name));
                    let total = c2.trace.len();
                    for l in c2.trace.iter().take(SAMPLE_LINES) {
                        samples.push_str(&l.replace('\n', " "));
                        samples.push('\n');
                    }
                    if total > SAMPLE_LINES {
                        samples.push_str(&format!("... {} more steps\n", total - SAMPLE_LINES));
                    }
                }
            }
            if let Err(m) = r {
                out.push_str(&format!("fail {si} {i} {}\n", m.replace('\n', " ")));
                let tape: Vec<String> = src.drawn.iter().map(|d| d.to_string()).collect();
                fs::write(dir.join(format!("tape{w}")), tape.join("\n")).unwrap();
                failed = true;
            }
            if failed {
                break;
            }
            i += WORKERS;
        }
        out.push_str(&format!("eval {si} {evals} {nontriv}\n"));
        for (l, c) in labels {
            out.push_str(&format!("label {si} {c} {l}\n"));
        }
        if failed {
            break 'suites;
        }
    }
    fs::write(dir.join(format!("digests{w}")), digests).unwrap();
    fs::write(dir.join(format!("samples{w}")), samples).unwrap();
    fs::write(dir.join(format!("result{w}")), out).unwrap();
    0
}

/// `--record ID suite index out`: runs one generated case, streaming its draws.
fn record(props: &[Prop], e: &Env, a: &[String]) -> i32 {
    let prop = find(props, &a[0]);
    let s = find_suite(prop, &a[1]);
    let i: u64 = a[2].parse().unwrap();
    let mut src = Src::generate(case_seed(prop, s, e.seed, i));
    src.sink = Some(fs::File::create(&a[3]).unwrap());
    let mut cx = Cx::new(false, e.thorough);
    match run_case(s, &mut src, &mut cx) {
        Ok(()) => 0,
        Err(_) => 1,
    }
}

fn read_tape(p: &Path) -> Vec<u64> {
    fs::read_to_string(p)
        .unwrap_or_default()
        .split_whitespace()
        .filter_map(|x| x.parse().ok())
        .collect()
}

/// `--try ID suite tapefile tracefile`: runs one tape with tracing. Exit 0 held, 1 failed.
fn try_one(props: &[Prop], e: &Env, a: &[String]) -> i32 {
    let prop = find(props, &a[0]);
    let s = find_suite(prop, &a[1]);
    let tape = read_tape(Path::new(&a[2]));
    let mut src = Src::replay(tape);
    let mut cx = Cx::new(a.len() > 3, e.thorough);
    let r = run_case(s, &mut src, &mut cx);
    if let Some(out) = a.get(3) {
        let mut t = cx.trace.join("\n");
        if let Err(m) = &r {
            t.push_str(&format!("\nFAILED: {m}"));
        }
        let _ = fs::write(out, t);
    }
    i32::from(r.is_err())
}

// ---------------------------------------------------------------- shrinking

/// Tries to make `tape` simpler while `fails` says that it still fails.
/// `fails` returns the draws actually made and their spans when it does.
fn shrink(
    tape: Vec<u64>,
    budget: &mut u64,
    deadline: Instant,
    mut fails: impl FnMut(&[u64]) -> Option<(Vec<u64>, Vec<(usize, usize)>)>,
) -> Vec<u64> {
    let Some((mut best, mut spans)) = fails(&tape) else {
        return tape;
    };
    let simpler = |a: &[u64], b: &[u64]| a.len() < b.len() || (a.len() == b.len() && a < b);
    macro_rules! attempt {
        ($cand:expr) => {{
            let cand: Vec<u64> = $cand;
            if *budget == 0 || Instant::now() > deadline {
                return best;
            }
            *budget -= 1;
            match fails(&cand) {
                Some((d, s)) if simpler(&d, &best) => {
                    best = d;
                    spans = s;
                    true
                }
                _ => false,
            }
        }};
    }
    loop {
        let before = best.clone();
        // remove groups of spans, then single spans, from the end
        let mut group = 16usize;
        while group >= 1 {
            let mut order: Vec<(usize, usize)> =
                spans.iter().copied().filter(|(a, b)| b > a).collect();
            order.sort();
            let mut k = order.len();
            while k > 0 {
                let lo = k.saturating_sub(group);
                let (a, b) = (order[lo].0, order[lo..k].iter().map(|s| s.1).max().unwrap());
                if b <= best.len() {
                    let mut c = best.clone();
                    c.drain(a..b);
                    if attempt!(c) {
                        order = spans.iter().copied().filter(|(a, b)| b > a).collect();
                        order.sort();
                        k = lo.min(order.len());
                        continue;
                    }
                }
                k = lo;
            }
            group /= 4;
        }
        // remove runs of draws
        for size in [8usize, 4, 2, 1] {
            let mut k = best.len();
            while k >= size {
                let mut c = best.clone();
                c.drain(k - size..k);
                if attempt!(c) {
                    k = k.min(best.len() + 1);
                }
                k -= 1;
                if k > best.len() {
                    k = best.len();
                }
            }
        }
        // remove one draw while lowering an earlier one (list lengths)
        if best.len() <= 200 {
            let mut k = 0;
            while k < best.len() {
                if best[k] > 0 {
                    for gap in 1..=4usize {
                        for size in 1..=4usize {
                            if k + gap + size <= best.len() && best[k] > 0 {
                                let mut c = best.clone();
                                c[k] -= 1;
                                c.drain(k + gap..k + gap + size);
                                let _ = attempt!(c);
                            }
                        }
                    }
                }
                k += 1;
            }
        }
        // lower values
        let mut k = 0;
        while k < best.len() {
            if best[k] > 0 {
                let mut c = best.clone();
                c[k] = 0;
                if !attempt!(c) {
                    let (mut lo, mut hi) = (0u64, best[k]);
                    while hi - lo > 1 && k < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[k] = mid;
                        if attempt!(c) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            k += 1;
        }
        if best == before {
            return best;
        }
    }
}

/// `--shrink ID suite tapefile outfile`
fn shrink_inproc(props: &[Prop], e: &Env, a: &[String]) -> i32 {
    let prop = find(props, &a[0]);
    let s = find_suite(prop, &a[1]);
    let tape = read_tape(Path::new(&a[2]));
    let out = PathBuf::from(&a[3]);
    let cur = PathBuf::from(format!("{}.cur", a[3]));
    let mut budget = 40_000;
    let deadline = Instant::now() + Duration::from_secs(60);
    let best = shrink(tape, &mut budget, deadline, |t| {
        // left behind if this candidate takes the process down
        let _ = write_tape(&cur, t);
        let mut src = Src::replay(t.to_vec());
        let mut cx = Cx::new(false, e.thorough);
        match run_case(s, &mut src, &mut cx) {
            Err(_) => {
                let _ = write_tape(&out, &src.drawn);
                Some((src.drawn, src.spans))
            }
            Ok(()) => None,
        }
    });
    let _ = write_tape(&out, &best);
    0
}

fn write_tape(p: &Path, t: &[u64]) -> std::io::Result<()> {
    let v: Vec<String> = t.iter().map(|d| d.to_string()).collect();
    fs::write(p, v.join("\n"))
}

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}

/// Waits for a child; `None` when it ran too long (and was killed).
fn wait(mut c: Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = c.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// A death that counts as a failure of the code under test (not a kill from outside).
fn crashed(s: ExitStatus) -> bool {
    match s.signal() {
        Some(9) | Some(15) | Some(2) => false,
        Some(_) => true,
        // the code the address sanitizer exits with
        None => s.code() == Some(99),
    }
}

fn try_child(prop: &Prop, suite: &str, tape: &Path, trace: Option<&Path>) -> Option<ExitStatus> {
    let mut c = me();
    c.args(["--try", prop.id, suite]).arg(tape);
    if let Some(t) = trace {
        c.arg(t);
    }
    let c = c
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    wait(c, Duration::from_secs(20))
}

fn shrink_by_child(prop: &Prop, suite: &str, tape: Vec<u64>, dir: &Path) -> Vec<u64> {
    let f = dir.join("cand");
    let mut budget = 1500;
    let deadline = Instant::now() + Duration::from_secs(90);
    shrink(tape, &mut budget, deadline, |t| {
        write_tape(&f, t).unwrap();
        match try_child(prop, suite, &f, None) {
            Some(s) if s.code() == Some(1) || crashed(s) => Some((t.to_vec(), vec![])),
            _ => None,
        }
    })
}

// ---------------------------------------------------------------- replay

/// Replays a failure. Exit 1 and the VIOLATION line when it still fails.
fn replay(props: &[Prop], e: &Env, file: &str) -> i32 {
    let text = fs::read_to_string(file).unwrap_or_else(|x| {
        eprintln!("{file}: {x}");
        std::process::exit(2)
    });
    let mut id = "";
    let mut suite = "";
    let mut range: Option<Vec<u64>> = None;
    let mut tape: Vec<u64> = vec![];
    for l in text.lines() {
        if let Some(x) = l.strip_prefix("property ") {
            id = x;
        } else if let Some(x) = l.strip_prefix("suite ") {
            suite = x;
        } else if let Some(x) = l.strip_prefix("tape") {
            tape = x.split_whitespace().map(|x| x.parse().unwrap()).collect();
        } else if let Some(x) = l.strip_prefix("range ") {
            range = Some(x.split_whitespace().map(|x| x.parse().unwrap()).collect());
        }
    }
    let prop = find(props, id);
    let s = find_suite(prop, suite);
    let dir = scratch(e, prop);
    let failed;
    if let Some(r) = range {
        // a crash that only shows after the preceding cases of the same worker
        let c = me()
            .args(["--worker", prop.id, &r[1].to_string()])
            .arg(&dir)
            .env("VERIF_SEED", r[0].to_string())
            .env("PBT_SUITE", s.name)
            .spawn()
            .unwrap();
        failed = wait(c, Duration::from_secs(TOTAL_S)).is_some_and(crashed);
    } else {
        let f = dir.join("tape");
        write_tape(&f, &tape).unwrap();
        let trace = dir.join("trace");
        let st = try_child(prop, s.name, &f, Some(&trace));
        if let Ok(t) = fs::read_to_string(&trace) {
            println!("{t}");
        }
        failed = st.is_some_and(|s| s.code() == Some(1) || crashed(s));
    }
    let _ = fs::remove_dir_all(&dir);
    if failed {
        println!("VIOLATION property={} replay={}", prop.id, file);
        1
    } else {
        println!("the replay holds");
        0
    }
}

fn scratch(e: &Env, prop: &Prop) -> PathBuf {
    let d = e
        .root
        .join("target")
        .join("scratch")
        .join(format!("{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&d).unwrap();
    d
}

// ---------------------------------------------------------------- the check

struct Failure {
    suite: usize,
    index: u64,
    message: String,
    tape: Vec<u64>,
    crash: bool,
    worker: u64,
    solo: bool,
}

fn check(prop: &Prop, e: &Env) -> i32 {
    let t0 = Instant::now();
    let dir = scratch(e, prop);
    let code = check_in(prop, e, t0, &dir);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn check_in(prop: &Prop, e: &Env, t0: Instant, dir: &Path) -> i32 {
    let _ = fs::remove_file(e.root.join("evidence").join(format!("{}.json", prop.id)));
    let mut kids: Vec<(u64, Child, [u8; 16], Instant)> = vec![];
    for w in 0..WORKERS {
        let log = fs::File::create(dir.join(format!("log{w}"))).unwrap();
        let c = me()
            .args(["--worker", prop.id, &w.to_string()])
            .arg(dir)
            .stdout(Stdio::null())
            .stderr(log)
            .spawn()
            .unwrap();
        kids.push((w, c, [0xff; 16], Instant::now()));
    }
    let mut ends: Vec<(u64, ExitStatus)> = vec![];
    let mut error: Option<String> = None;
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut still = vec![];
        for (w, mut c, mut last, mut since) in kids {
            if let Some(s) = c.try_wait().unwrap() {
                ends.push((w, s));
                continue;
            }
            let mut now = [0u8; 16];
            if let Ok(b) = fs::read(dir.join(format!("status{w}")))
                && b.len() == 16
            {
                now.copy_from_slice(&b);
            }
            if now != last {
                last = now;
                since = Instant::now();
            }
            if since.elapsed().as_secs() > HANG_S || t0.elapsed().as_secs() > TOTAL_S {
                let si = u64::from_le_bytes(now[..8].try_into().unwrap());
                let i = u64::from_le_bytes(now[8..].try_into().unwrap());
                error = Some(format!(
                    "suite {si} case {i} of worker {w} did not finish in time"
                ));
                let _ = c.kill();
                let _ = c.wait();
                continue;
            }
            still.push((w, c, last, since));
        }
        kids = still;
    }

    let mut evals = 0u64;
    let mut per_suite: Vec<(u64, u64)> = vec![(0, 0); prop.suites.len()];
    let mut labels: BTreeMap<(usize, String), u64> = BTreeMap::new();
    let mut digests: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Vec<String>> = vec![];
    let mut failures: Vec<Failure> = vec![];
    ends.sort_by_key(|x| x.0);
    for (w, st) in &ends {
        if st.code() == Some(0) {
            let text = fs::read_to_string(dir.join(format!("result{w}"))).unwrap_or_default();
            for l in text.lines() {
                let mut p = l.splitn(4, ' ');
                match p.next() {
                    Some("eval") => {
                        let si: usize = p.next().unwrap().parse().unwrap();
                        let n: u64 = p.next().unwrap().parse().unwrap();
                        let t: u64 = p.next().unwrap().parse().unwrap();
                        evals += n;
                        per_suite[si].0 += n;
                        per_suite[si].1 += t;
                    }
                    Some("label") => {
                        let si: usize = p.next().unwrap().parse().unwrap();
                        let c: u64 = p.next().unwrap().parse().unwrap();
                        *labels
                            .entry((si, p.next().unwrap().to_string()))
                            .or_insert(0) += c;
                    }
                    Some("fail") => {
                        let si: usize = p.next().unwrap().parse().unwrap();
                        let i: u64 = p.next().unwrap().parse().unwrap();
                        failures.push(Failure {
                            suite: si,
                            index: i,
                            message: p.next().unwrap_or("").to_string(),
                            tape: read_tape(&dir.join(format!("tape{w}"))),
                            crash: false,
                            worker: *w,
                            solo: true,
                        });
                    }
                    _ => {}
                }
            }
            let d = fs::read(dir.join(format!("digests{w}"))).unwrap_or_default();
            for c in d.chunks_exact(8) {
                digests.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
            let s = fs::read_to_string(dir.join(format!("samples{w}"))).unwrap_or_default();
            for l in s.lines() {
                if l.starts_with('@') {
                    samples.push(vec![l.to_string()]);
                } else if let Some(v) = samples.last_mut() {
                    v.push(l.to_string());
                }
            }
        } else if crashed(*st) {
            let b = fs::read(dir.join(format!("status{w}"))).unwrap_or_default();
            if b.len() != 16 {
                error = Some(format!("worker {w} died at start: {st}"));
                continue;
            }
            let si = u64::from_le_bytes(b[..8].try_into().unwrap()) as usize;
            let i = u64::from_le_bytes(b[8..].try_into().unwrap());
            evals += 1;
            per_suite[si].0 += 1;
            let rec = dir.join(format!("rec{w}"));
            let c = me()
                .args(["--record", prop.id, prop.suites[si].name, &i.to_string()])
                .arg(&rec)
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .unwrap();
            let solo = match wait(c, Duration::from_secs(60)) {
                Some(s) => crashed(s) || s.code() == Some(1),
                None => false,
            };
            let log = fs::read_to_string(dir.join(format!("log{w}"))).unwrap_or_default();
            let why = log
                .lines()
                .find(|l| {
                    l.contains("ERROR: AddressSanitizer")
                        || l.contains("memory allocation")
                        || l.contains("panicked")
                        || l.contains("stack overflow")
                })
                .unwrap_or("")
                .to_string();
            failures.push(Failure {
                suite: si,
                index: i,
                message: format!("the process died ({st}) {why}"),
                tape: read_tape(&rec),
                crash: true,
                worker: *w,
                solo,
            });
        } else {
            let log = fs::read_to_string(dir.join(format!("log{w}"))).unwrap_or_default();
            eprintln!("{log}");
            error = Some(format!("worker {w} ended with {st}"));
        }
    }
    // prefer failures that replay on their own, then the earliest
    failures.sort_by_key(|f| (!f.solo, f.crash, f.suite, f.index));

    let mut code = 0;
    let mut violations = 0;
    if let Some(f) = failures.first() {
        violations = failures.len();
        code = 1;
        let s = &prop.suites[f.suite];
        let rdir = e.root.join("replays");
        fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{}-{}-{}.txt", prop.id, s.name, e.seed, f.index));
        let mut text = String::new();
        if f.solo {
            let (tape, trace) = minimise(prop, s, f, dir);
            text.push_str(&format!(
                "property {}\nsuite {}\ntape {}\n",
                prop.id,
                s.name,
                tape.iter()
                    .map(|d| d.to_string())
                    .collect::<Vec<_>>()
                    .join(" ")
            ));
            text.push_str(&format!("# first failure: {}\n", f.message));
            for l in trace.lines() {
                text.push_str(&format!("# {l}\n"));
            }
            println!("{trace}");
        } else {
            text.push_str(&format!(
                "property {}\nsuite {}\nrange {} {}\n# {}\n",
                prop.id, s.name, e.seed, f.worker, f.message
            ));
        }
        println!("first failure: suite {} case {}: {}", s.name, f.index, f.message);
        fs::write(&path, text).unwrap();
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    } else if let Some(m) = &error {
        eprintln!("error: {m}");
        return 3;
    } else {
        // an unexpected end of a worker is reported above; here all of them finished
        report_known(prop, e);
    }
    for (i, s) in prop.suites.iter().enumerate() {
        println!(
            "{} {}: {} cases, {} non-trivial",
            prop.id, s.name, per_suite[i].0, per_suite[i].1
        );
    }
    let wall = t0.elapsed().as_secs_f64();
    evidence(
        prop, e, evals, &per_suite, &labels, &digests, &samples, violations, wall,
    );
    code
}

fn minimise(prop: &Prop, s: &Suite, f: &Failure, dir: &Path) -> (Vec<u64>, String) {
    let mut tape = f.tape.clone();
    let mut by_child = f.crash;
    if !by_child {
        let tin = dir.join("shrink.in");
        let tout = dir.join("shrink.out");
        write_tape(&tin, &tape).unwrap();
        let c = me()
            .args(["--shrink", prop.id, s.name])
            .arg(&tin)
            .arg(&tout)
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        match wait(c, Duration::from_secs(90)) {
            Some(st) if st.success() => {}
            Some(st) if crashed(st) => {
                // a candidate took the process down: that candidate is a failure too
                by_child = true;
            }
            _ => {}
        }
        let t = read_tape(&tout);
        if !t.is_empty() {
            tape = t;
        }
        if by_child {
            let t = read_tape(&dir.join("shrink.out.cur"));
            if !t.is_empty() {
                tape = t;
            }
        }
    }
    if by_child {
        tape = shrink_by_child(prop, s.name, tape, dir);
    }
    let tf = dir.join("final");
    let tr = dir.join("final.trace");
    write_tape(&tf, &tape).unwrap();
    let st = try_child(prop, s.name, &tf, Some(&tr));
    let mut trace = fs::read_to_string(&tr).unwrap_or_default();
    if let Some(st) = st
        && crashed(st)
    {
        trace.push_str(&format!("FAILED: the process died ({st})"));
    }
    (tape, trace)
}

fn report_known(prop: &Prop, e: &Env) {
    let text = fs::read_to_string(e.root.join("known_findings.txt")).unwrap_or_default();
    for (key, demo) in prop.known {
        let listed = text
            .lines()
            .find(|l| l.starts_with("open: ") && l.contains(&format!("property={} key={key} ", prop.id)));
        let Some(l) = listed else { continue };
        match quiet_catch(demo) {
            Ok(Ok(true)) | Err(_) => {
                let what = l.split_once(&format!("key={key} ")).map(|x| x.1).unwrap_or(key);
                println!("KNOWN-FINDING: property={} {}", prop.id, what);
            }
            Ok(Ok(false)) => println!("note: finding {key} of {} no longer shows", prop.id),
            Ok(Err(m)) => println!("note: finding {key} of {}: {m}", prop.id),
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &Prop,
    e: &Env,
    evals: u64,
    per_suite: &[(u64, u64)],
    labels: &BTreeMap<(usize, String), u64>,
    digests: &HashSet<u64>,
    samples: &[Vec<String>],
    violations: usize,
    wall: f64,
) {
    let mut o = String::from("{\n");
    o.push_str(&format!("  \"property\": {},\n", js(prop.id)));
    o.push_str(&format!(
        "  \"tier\": {},\n  \"seed\": {},\n  \"level\": {},\n",
        js(if e.thorough { "thorough" } else { "quick" }),
        e.seed as i64,
        js(prop.level)
    ));
    o.push_str("  \"coverage\": {\n");
    o.push_str(&format!("    \"evaluations\": {evals},\n"));
    o.push_str(&format!(
        "    \"distinct_nontrivial\": {},\n",
        digests.len()
    ));
    o.push_str(&format!("    \"rule\": {},\n", js(prop.rule)));
    o.push_str("    \"suites\": {");
    for (i, s) in prop.suites.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str(&format!(
            "\n      {}: {{\"cases\": {}, \"nontrivial\": {}, \"labels\": {{",
            js(s.name),
            per_suite[i].0,
            per_suite[i].1
        ));
        let ls: Vec<String> = labels
            .iter()
            .filter(|(k, _)| k.0 == i)
            .map(|(k, v)| format!("{}: {v}", js(&k.1)))
            .collect();
        o.push_str(&ls.join(", "));
        o.push_str("}}");
    }
    o.push_str("\n    },\n    \"samples\": [");
    for (i, s) in samples.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        o.push_str("\n      ");
        o.push_str(&js(&s.join("\n")));
    }
    o.push_str("\n    ]\n  },\n");
    o.push_str(&format!("  \"wall_s\": {wall:.3},\n"));
    let asm: Vec<String> = prop.assumptions.iter().map(|a| js(a)).collect();
    o.push_str(&format!("  \"assumptions\": [{}],\n", asm.join(", ")));
    o.push_str(&format!("  \"violations\": {violations}\n}}\n"));
    let dir = e.root.join("evidence");
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join(format!("{}.json", prop.id)), o).unwrap();
}
