//! C22: the poll word, mounted as it is.

#![allow(dead_code, unused)]

#[path = "/repo/monoruby/src/poll_flag.rs"]
mod poll_flag;

use pbt::{Cx, Prop, R, Src, Suite, ensure, note, same};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicU32, AtomicUsize, Ordering::*};
use std::sync::mpsc;

/// What may be pending in one word.
#[derive(Clone, Copy, Debug, PartialEq, Default)]
struct Lanes {
    gc: bool,
    preempt: bool,
    signal: bool,
}

impl Lanes {
    fn of(w: u32) -> Result<Lanes, String> {
        ensure!(w >> 24 == 0, "the word is {w:#010x}: a request of no kind");
        Ok(Lanes { gc: w & 0xff != 0, preempt: w & 0xff00 != 0, signal: w & 0xff0000 != 0 })
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Register(usize),
    Unregister(usize),
    Adopt,
    SetGc,
    ClearGc,
    GcRequested,
    SetPreempt,
    ConsumePreempt,
    ClearSignal,
    Handler,
    /// The timer's thread writes through the address it was given.
    Timer(usize),
}

#[derive(Clone, Debug, PartialEq)]
struct Model {
    words: Vec<Lanes>,
    /// The word each thread has registered.
    mine: Vec<Option<usize>>,
    handler: Option<usize>,
}

impl Model {
    /// Runs `op` on thread `t`.
    fn step(&mut self, t: usize, op: Op) -> Option<bool> {
        let mine = self.mine[t];
        match op {
            Op::Register(w) => {
                self.mine[t] = Some(w);
                self.handler = Some(w);
            }
            Op::Unregister(w) => {
                if mine == Some(w) {
                    self.mine[t] = None;
                }
                if self.handler == Some(w) {
                    self.handler = None;
                }
            }
            Op::Adopt => {
                if mine.is_some() {
                    self.handler = mine;
                }
            }
            Op::SetGc => drop(mine.map(|w| self.words[w].gc = true)),
            Op::ClearGc => drop(mine.map(|w| self.words[w].gc = false)),
            Op::GcRequested => return Some(mine.is_none_or(|w| self.words[w].gc)),
            Op::SetPreempt => drop(mine.map(|w| self.words[w].preempt = true)),
            Op::ConsumePreempt => {
                return Some(mine.is_some_and(|w| std::mem::take(&mut self.words[w].preempt)));
            }
            Op::ClearSignal => drop(mine.map(|w| self.words[w].signal = false)),
            Op::Handler => drop(self.handler.map(|w| self.words[w].signal = true)),
            Op::Timer(w) => self.words[w].preempt = true,
        }
        None
    }
}

fn real(op: Op, words: &[AtomicU32]) -> Option<bool> {
    match op {
        Op::Register(w) => poll_flag::register(words[w].as_ptr()),
        Op::Unregister(w) => poll_flag::unregister(words[w].as_ptr()),
        Op::Adopt => poll_flag::adopt_signal_registry(),
        Op::SetGc => poll_flag::set_gc(),
        Op::ClearGc => poll_flag::clear_gc(),
        Op::GcRequested => return Some(poll_flag::gc_requested()),
        Op::SetPreempt => poll_flag::set_preempt(),
        Op::ConsumePreempt => return Some(poll_flag::consume_preempt()),
        Op::ClearSignal => poll_flag::clear_signal(),
        Op::Handler => poll_flag::set_signal_from_handler(),
        Op::Timer(w) => drop(words[w].fetch_or(poll_flag::PREEMPT_LANE, Relaxed)),
    }
    None
}

fn agree(words: &[AtomicU32], m: &Model, what: &str) -> R {
    for (i, w) in words.iter().enumerate() {
        let got = Lanes::of(w.load(Relaxed))?;
        same!(got, m.words[i], "word {i} after {what}");
    }
    Ok(())
}

fn op(src: &mut Src, words: usize) -> Op {
    match src.weighted(&[4, 2, 2, 4, 4, 4, 4, 4, 4, 6, 4]) {
        0 => Op::Register(src.usize(words)),
        1 => Op::Unregister(src.usize(words)),
        2 => Op::Adopt,
        3 => Op::SetGc,
        4 => Op::ClearGc,
        5 => Op::GcRequested,
        6 => Op::SetPreempt,
        7 => Op::ConsumePreempt,
        8 => Op::ClearSignal,
        9 => Op::Handler,
        _ => Op::Timer(src.usize(words)),
    }
}

/// Several interpreters on several threads, one operation at a time.
fn histories(src: &mut Src, cx: &mut Cx) -> R {
    const W: usize = 4;
    let threads = src.range(1, 3);
    let words: &'static [AtomicU32; W] = Box::leak(Box::new([const { AtomicU32::new(0) }; W]));
    let mut m = Model { words: vec![Lanes::default(); W], mine: vec![None; threads], handler: None };
    let r = std::thread::scope(|s| {
        let (answer, answers) = mpsc::channel();
        let send: Vec<mpsc::Sender<Op>> = (0..threads)
            .map(|_| {
                let (tx, rx) = mpsc::channel();
                let answer = answer.clone();
                s.spawn(move || {
                    for op in rx {
                        answer.send(real(op, words)).unwrap();
                    }
                });
                tx
            })
            .collect();
        // no interpreter yet
        for w in 0..W {
            send[0].send(Op::Unregister(w)).unwrap();
            answers.recv().unwrap();
        }
        let mut n = 0;
        while n < 120 && src.more(30) {
            n += 1;
            let t = src.usize(threads);
            let op = op(src, W);
            note!(cx, "thread {t}: {op:?}");
            let want = m.step(t, op);
            send[t].send(op).unwrap();
            let got = answers.recv().unwrap();
            same!(got, want, "answer to {op:?} on thread {t}");
            agree(words, &m, &format!("{op:?} on thread {t}"))?;
            if let Op::Handler | Op::Timer(_) = op
                && m.mine.iter().flatten().count() >= 2
            {
                cx.nontrivial();
            }
        }
        for w in 0..W {
            send[0].send(Op::Unregister(w)).unwrap();
            answers.recv().unwrap();
        }
        Ok(())
    });
    r
}

// ---- one operation interrupted after each of its machine instructions

static STEPS: AtomicUsize = AtomicUsize::new(0);
static AT: AtomicUsize = AtomicUsize::new(0);
static WHAT: AtomicU8 = AtomicU8::new(0);
static WORD: AtomicUsize = AtomicUsize::new(0);

fn intrude(what: u8) {
    match what {
        0 => poll_flag::set_signal_from_handler(),
        1 => {
            let w = WORD.load(Relaxed);
            unsafe { &*(w as *const AtomicU32) }.fetch_or(poll_flag::PREEMPT_LANE, Relaxed);
        }
        2 => poll_flag::set_gc(),
        _ => poll_flag::set_preempt(),
    }
}

unsafe extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
}

extern "C" fn trap(_: i32) {
    if STEPS.fetch_add(1, Relaxed) + 1 == AT.load(Relaxed) {
        intrude(WHAT.load(Relaxed));
    }
}

/// Runs `op` one instruction at a time and lets `what` happen after the `at`-th one. Returns the
/// answer and whether the operation was still running then.
fn stepped(op: Op, words: &[AtomicU32], at: usize, what: u8) -> (Option<bool>, bool) {
    static ON: std::sync::Once = std::sync::Once::new();
    ON.call_once(|| unsafe {
        signal(5, trap as *const () as usize);
    });
    STEPS.store(0, Relaxed);
    AT.store(at, Relaxed);
    WHAT.store(what, Relaxed);
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
    }
    let r = real(op, words);
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    let inside = STEPS.load(Relaxed) >= at;
    AT.store(0, Relaxed);
    if !inside {
        intrude(what);
    }
    (r, inside)
}

fn interrupted(src: &mut Src, cx: &mut Cx) -> R {
    const W: usize = 2;
    let words: &'static [AtomicU32; W] = Box::leak(Box::new([const { AtomicU32::new(0) }; W]));
    let mut m = Model { words: vec![Lanes::default(); W], mine: vec![None], handler: None };
    for w in 0..W {
        poll_flag::unregister(words[w].as_ptr());
    }
    let first = src.usize(W);
    real(Op::Register(first), words);
    m.step(0, Op::Register(first));
    let mut n = 0;
    let r = loop {
        if n == 60 || !src.more(16) {
            break Ok(());
        }
        n += 1;
        let op = op(src, W);
        if src.bool() {
            note!(cx, "{op:?}");
            let want = m.step(0, op);
            let got = real(op, words);
            if got != want {
                break Err(format!("answer to {op:?}: got {got:?}, expected {want:?}"));
            }
        } else {
            let at = src.range(1, 48);
            let what = src.usize(4) as u8;
            let w = src.usize(W);
            WORD.store(&words[w] as *const _ as usize, Relaxed);
            let other = [Op::Handler, Op::Timer(w), Op::SetGc, Op::SetPreempt][what as usize];
            note!(cx, "{op:?} with {other:?} after instruction {at}");
            let (got, inside) = stepped(op, words, at, what);
            if inside {
                cx.nontrivial();
                cx.label("interrupted inside");
            }
            let mut a = m.clone();
            let ra = a.step(0, op);
            a.step(0, other);
            let mut b = m.clone();
            b.step(0, other);
            let rb = b.step(0, op);
            let now = match words.iter().map(|w| Lanes::of(w.load(Relaxed))).collect::<Result<Vec<_>, _>>() {
                Ok(now) => now,
                Err(e) => break Err(e),
            };
            if now == a.words && got == ra {
                m = a;
            } else if now == b.words && got == rb {
                m = b;
            } else {
                break Err(format!(
                    "{op:?} interrupted by {other:?} after instruction {at}: answer {got:?} and {now:?}; one after the other: {ra:?} and {:?}, or {rb:?} and {:?}",
                    a.words, b.words
                ));
            }
        }
        if let Err(e) = agree(words, &m, &format!("{op:?}")) {
            break Err(e);
        }
    };
    for w in 0..W {
        poll_flag::unregister(words[w].as_ptr());
    }
    r
}

// ---- threads for real

/// One thread owns the word and raises and clears its own requests; others raise theirs at the
/// same time. Whatever was raised after the last clear of its kind must still be there.
fn races(src: &mut Src, cx: &mut Cx) -> R {
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let rounds = src.range(20, 60);
    let script: Vec<u8> = (0..src.range(1, 6)).map(|_| src.usize(5) as u8).collect();
    let timer = src.bool();
    note!(cx, "{rounds} rounds of {script:?} against a handler{}", if timer { " and a timer" } else { "" });
    cx.nontrivial();
    poll_flag::register(word.as_ptr());
    let round = AtomicUsize::new(0);
    let done = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    const BURST: usize = 400;
    let mut out = Ok(());
    std::thread::scope(|s| {
        let others = 1 + timer as usize;
        for k in 0..others {
            let (round, done, stop) = (&round, &done, &stop);
            s.spawn(move || {
                let mut at = 0;
                loop {
                    let mut spins = 0u32;
                    while round.load(Acquire) == at {
                        if stop.load(Relaxed) {
                            return;
                        }
                        spins += 1;
                        if spins % 64 == 0 {
                            std::thread::yield_now();
                        }
                    }
                    at += 1;
                    for _ in 0..BURST {
                        if k == 0 {
                            poll_flag::set_signal_from_handler();
                        } else {
                            word.fetch_or(poll_flag::PREEMPT_LANE, Relaxed);
                        }
                    }
                    done.fetch_add(1, Release);
                }
            });
        }
        'all: for r in 0..rounds {
            word.store(0, Relaxed);
            done.store(0, Relaxed);
            round.fetch_add(1, Release);
            let mut gc = false;
            // each lane of the others must still be pending when they are through
            for i in 0..BURST {
                match script[i % script.len()] {
                    0 | 1 => {
                        poll_flag::set_gc();
                        gc = true;
                    }
                    2 | 3 => {
                        poll_flag::clear_gc();
                        gc = false;
                    }
                    _ => {
                        let got = poll_flag::gc_requested();
                        if got != gc {
                            out = Err(format!("round {r}: the owner sees request {got} after leaving {gc}"));
                            break 'all;
                        }
                    }
                }
                let got = word.load(Relaxed) & 0xff != 0;
                if got != gc {
                    out = Err(format!("round {r}: the owner's request is {got} after it was left {gc}"));
                    break 'all;
                }
            }
            let mut spins = 0u32;
            while done.load(Acquire) < others {
                spins += 1;
                if spins % 64 == 0 {
                    std::thread::yield_now();
                }
            }
            let l = match Lanes::of(word.load(Relaxed)) {
                Ok(l) => l,
                Err(e) => {
                    out = Err(e);
                    break;
                }
            };
            if !l.signal || l.preempt != timer || l.gc != gc {
                out = Err(format!("round {r}: {l:?} is left, with a handler, a timer: {timer}, a pending collection: {gc}"));
                break;
            }
        }
        stop.store(true, Relaxed);
    });
    poll_flag::unregister(word.as_ptr());
    out
}

static PROPS: &[Prop] = &[Prop {
    id: "C22",
    rule: "histories of raising, clearing, asking and registering by up to three threads one step at a time; single operations interrupted after a chosen machine instruction by another one; and bursts of real threads against the owner; non-trivial: a handler or timer raises with two interpreters registered, or an interruption falls inside the operation, or threads race",
    assumptions: &["single-stepping by the processor's trap flag", "rustc and the operating system"],
    level: "exploration",
    suites: &[
        Suite { name: "histories", cases: 16_000, run: histories },
        Suite { name: "interrupted", cases: 60_000, run: interrupted },
        Suite { name: "races", cases: 800, run: races },
    ],
    known: &[],
}];

fn main() {
    pbt::main(PROPS)
}
