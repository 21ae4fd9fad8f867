//! C27 and C28: the IO buffers, mounted as they are over scripted descriptors.

#![allow(dead_code, unused)]

use pbt::{Cx, Prop, R, Src, Suite, ensure, fail, note, same};
use std::cell::{Cell, RefCell};
use std::io::{BufRead, Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::os::fd::{AsRawFd, IntoRawFd};

#[path = "/repo/monoruby/src/value/rvalue/io/buf.rs"]
mod buf;

use buf::{DrainErr, IoReader, IoWriter, StdFd, WriteBuf};

const CAPA: usize = 8192;

/// Byte `i` of an endless text in which no two nearby stretches are equal.
fn byte(i: usize) -> u8 {
    let x = (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let b = (x >> 40) as u8;
    if b < 10 { b'\n' } else { b }
}

/// A number of bytes, often close to the capacity of the buffer.
fn amount(src: &mut Src) -> usize {
    match src.weighted(&[6, 4, 3, 3, 2]) {
        0 => src.usize(5),
        1 => src.usize(300),
        2 => (CAPA + src.usize(5)).saturating_sub(2),
        3 => src.usize(CAPA),
        _ => src.usize(3 * CAPA),
    }
}

// ---- writing

/// What the next call on the descriptor does.
#[derive(Clone, Copy, Debug)]
enum Outcome {
    Accept(usize),
    /// Accept some bytes while a signal arrives.
    AcceptSignal(usize),
    Interrupt,
    InterruptSignal,
    Block,
    Error(i32),
    Zero,
}

#[derive(Default)]
struct World {
    /// What reached the descriptor.
    fd: Vec<u8>,
    script: Vec<Outcome>,
    signal: bool,
    /// The last outcome that was not a success.
    last: Option<Outcome>,
    calls: usize,
    /// A call that should not have been made.
    wrong: Option<String>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
}

fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

struct Sink;

impl Write for Sink {
    fn write(&mut self, data: &[u8]) -> std::io::Result<usize> {
        world(|w| {
            w.calls += 1;
            if w.signal && w.wrong.is_none() {
                w.wrong = Some("the descriptor was written to while a signal was pending".into());
            }
            if data.is_empty() && w.wrong.is_none() {
                w.wrong = Some("the descriptor was asked to write nothing".into());
            }
            let o = w.script.pop().unwrap_or(Outcome::Accept(usize::MAX));
            w.last = Some(o);
            let mut take = |w: &mut World, n: usize| {
                let n = n.clamp(1, data.len().max(1)).min(data.len());
                w.fd.extend_from_slice(&data[..n]);
                Ok(n)
            };
            match o {
                Outcome::Accept(n) => take(w, n),
                Outcome::AcceptSignal(n) => {
                    w.signal = true;
                    take(w, n)
                }
                Outcome::Interrupt => Err(ErrorKind::Interrupted.into()),
                Outcome::InterruptSignal => {
                    w.signal = true;
                    Err(ErrorKind::Interrupted.into())
                }
                Outcome::Block => Err(ErrorKind::WouldBlock.into()),
                Outcome::Error(code) => Err(Error::from_raw_os_error(code)),
                Outcome::Zero => Ok(0),
            }
        })
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn pending() -> bool {
    world(|w| w.signal)
}

enum Out {
    Buf(WriteBuf),
    Writer(IoWriter<Sink>),
}

impl Out {
    fn write(&mut self, data: &[u8], progress: &mut usize) -> Result<(), DrainErr> {
        match self {
            Out::Buf(b) => b.write(&mut Sink, data, progress, &pending),
            Out::Writer(w) => w.write(data, progress, &pending),
        }
    }
    fn drain(&mut self) -> Result<(), DrainErr> {
        match self {
            Out::Buf(b) => b.drain(&mut Sink, &pending),
            Out::Writer(w) => w.drain(&pending),
        }
    }
    fn set_sync(&mut self, sync: bool) {
        match self {
            Out::Buf(b) => b.set_sync(sync),
            Out::Writer(w) => w.set_sync(sync),
        }
    }
    fn sync(&self) -> bool {
        match self {
            Out::Buf(b) => b.sync(),
            Out::Writer(w) => w.sync(),
        }
    }
    fn buffered(&self) -> Option<usize> {
        match self {
            Out::Buf(b) => Some(b.buffered_len()),
            Out::Writer(_) => None,
        }
    }
}

/// Whether the answer of one call is what its last encounter with the descriptor calls for.
fn judge(cx: &mut Cx, res: &Result<(), DrainErr>, calls: usize, signal_before: bool) -> Result<&'static str, String> {
    let (last, signal, wrong, calls_now) = world(|w| (w.last, w.signal, w.wrong.take(), w.calls));
    if let Some(w) = wrong {
        return Err(w);
    }
    let last = if calls_now > calls { last } else { None };
    match res {
        Ok(()) => {
            if matches!(last, Some(Outcome::Block | Outcome::Error(_) | Outcome::Zero)) {
                return Err(format!("a call that ended with {last:?} was reported as a success"));
            }
            Ok("done")
        }
        Err(DrainErr::Signal) => {
            if !signal {
                return Err("a signal was reported that had not arrived".into());
            }
            cx.label("stopped by a signal");
            Ok("signal")
        }
        Err(DrainErr::WouldBlock) => {
            if !matches!(last, Some(Outcome::Block)) {
                return Err(format!("reported that it would block after {last:?}"));
            }
            cx.label("stopped by a full descriptor");
            Ok("block")
        }
        Err(DrainErr::Io(e)) => {
            match last {
                Some(Outcome::Error(code)) if e.raw_os_error() == Some(code) => {}
                Some(Outcome::Zero) => {}
                _ => return Err(format!("reported the error {e} after {last:?}")),
            }
            cx.label("stopped by an error");
            Ok("error")
        }
    }
}

fn outcomes(src: &mut Src, faults: bool) -> Vec<Outcome> {
    let mut v = vec![];
    while v.len() < 40 && src.more(3) {
        let n = amount(src).max(1);
        v.push(match src.weighted(if faults { &[8, 2, 3, 2, 3, 2, 1] } else { &[8, 0, 3, 0, 0, 0, 0] }) {
            0 => Outcome::Accept(n),
            1 => Outcome::AcceptSignal(n),
            2 => Outcome::Interrupt,
            3 => Outcome::InterruptSignal,
            4 => Outcome::Block,
            5 => Outcome::Error(src.pick(&[32, 28, 5, 9])),
            _ => Outcome::Zero,
        });
    }
    v.reverse();
    v
}

fn writing(src: &mut Src, cx: &mut Cx) -> R {
    world(|w| *w = World::default());
    let tty = src.chance(1, 6);
    let mut sync = src.chance(1, 4);
    let mut out = if src.chance(1, 3) {
        Out::Writer(IoWriter::new(Sink, sync, tty))
    } else {
        Out::Buf(WriteBuf::new(sync, tty))
    };
    note!(cx, "sync {sync}, terminal {tty}");
    // All bytes accepted so far: the first `taken` of the endless text, except
    // that a write given up leaves out the rest of its data.
    let mut accepted: Vec<u8> = vec![];
    let mut next = 0usize;
    // What the last failure left behind.
    let mut stopped = 0;
    while src.more(10) {
        src.begin();
        match src.weighted(&[12, 4, 2]) {
            0 => {
                let n = amount(src);
                let data: Vec<u8> = (next..next + n).map(byte).collect();
                next += n;
                let mut progress = 0;
                // A write is restarted with its progress until done or given up.
                for round in 0.. {
                    let script = outcomes(src, true);
                    note!(cx, "write {n} bytes from {progress} on, the descriptor will {script:?}");
                    world(|w| w.script = script);
                    if src.chance(1, 10) {
                        note!(cx, "  with a signal pending");
                        world(|w| w.signal = true);
                    }
                    let before = progress;
                    let held = out.buffered();
                    let calls = world(|w| w.calls);
                    let res = out.write(&data, &mut progress);
                    let how = judge(cx, &res, calls, false)?;
                    note!(cx, "  {how}, progress {progress}, buffered {:?}", out.buffered());
                    ensure!(progress >= before && progress <= n, "progress went from {before} to {progress} of {n}");
                    accepted.extend_from_slice(&data[before..progress]);
                    check(&out, &accepted)?;
                    if sync || tty {
                        if let (Some(b), Some(a)) = (held, out.buffered()) {
                            ensure!(a <= b, "a write without buffering left {a} bytes buffered, {b} before");
                        }
                    }
                    if how == "done" {
                        same!(progress, n, "progress of a finished write");
                        if (sync || tty) && n > 0 {
                            same!(world(|w| w.fd.len()), accepted.len(), "bytes at the descriptor after a synchronous write");
                        }
                        break;
                    }
                    stopped += 1;
                    world(|w| w.signal = false);
                    if src.chance(1, 4) || round > 6 {
                        note!(cx, "  given up");
                        break;
                    }
                }
            }
            1 => {
                let script = outcomes(src, true);
                note!(cx, "flush, the descriptor will {script:?}");
                world(|w| w.script = script);
                let calls = world(|w| w.calls);
                let res = out.drain();
                let how = judge(cx, &res, calls, false)?;
                note!(cx, "  {how}");
                check(&out, &accepted)?;
                if how == "done" {
                    same!(world(|w| w.fd.len()), accepted.len(), "bytes at the descriptor after a flush");
                } else {
                    stopped += 1;
                    world(|w| w.signal = false);
                }
            }
            _ => {
                sync = src.bool();
                note!(cx, "sync = {sync}");
                out.set_sync(sync);
                same!(out.sync(), sync, "the synchronous mode just set");
                check(&out, &accepted)?;
            }
        }
        src.end();
    }
    // In the end everything comes out.
    for _ in 0..3 {
        world(|w| {
            w.signal = false;
            w.script.clear();
        });
        if out.drain().is_ok() {
            break;
        }
    }
    if let Some(w) = world(|w| w.wrong.take()) {
        fail!("{w}");
    }
    check(&out, &accepted)?;
    same!(world(|w| w.fd.len()), accepted.len(), "bytes at the descriptor in the end");
    if let Some(b) = out.buffered() {
        same!(b, 0, "bytes buffered in the end");
    }
    if stopped > 0 && accepted.len() > 1 {
        cx.nontrivial();
    }
    if accepted.len() > CAPA {
        cx.label("more than one buffer full");
    }
    Ok(())
}

fn check(out: &Out, accepted: &[u8]) -> R {
    let fd = world(|w| std::mem::take(&mut w.fd));
    let ok = accepted.starts_with(&fd);
    let len = fd.len();
    if !ok {
        let at = fd.iter().zip(accepted).position(|(a, b)| a != b).unwrap_or(accepted.len());
        fail!("byte {at} at the descriptor is not byte {at} of the accepted {} (it has {len})", accepted.len());
    }
    world(|w| w.fd = fd);
    if let Some(b) = out.buffered() {
        same!(len + b, accepted.len(), "bytes at the descriptor ({len}) and buffered ({b}), against those accepted");
    }
    Ok(())
}

/// The real thing: a pipe.
fn pipes(src: &mut Src, cx: &mut Cx) -> R {
    let (mut rx, tx) = std::io::pipe().map_err(|e| e.to_string())?;
    let fd = tx.as_raw_fd();
    let mut want = vec![];
    let sync = src.bool();
    {
        let mut w = IoWriter::new(StdFd::new(fd), sync, false);
        same!(w.get_ref().as_raw_fd(), fd, "the descriptor");
        ensure!(!w.get_ref().is_terminal(), "a pipe is a terminal");
        for _ in 0..src.usize(8) {
            let n = src.pick(&[1usize, 10, 3000, 8191, 8192]).min(60_000 - want.len());
            let data: Vec<u8> = (want.len()..want.len() + n).map(byte).collect();
            note!(cx, "write {n}");
            let mut progress = 0;
            ensure!(w.write(&data, &mut progress, &|| false).is_ok(), "a write to a pipe failed");
            same!(progress, n, "progress");
            want.extend(data);
        }
        ensure!(w.drain(&|| false).is_ok(), "a flush to a pipe failed");
    }
    // The descriptor is still open.
    let mut again = StdFd::new(fd);
    let r = again.write(b"!");
    ensure!(matches!(r, Ok(1)), "writing after the first wrapper is gone gave {r:?}");
    want.push(b'!');
    drop(again);
    drop(tx);
    let mut got = vec![];
    rx.read_to_end(&mut got).map_err(|e| e.to_string())?;
    ensure!(got == want, "the pipe carried {} bytes, {} were written, or they differ", got.len(), want.len());
    if want.len() > CAPA {
        cx.nontrivial();
    }
    Ok(())
}

// ---- reading

/// A file whose reads return as much as the script says.
struct File {
    content: Vec<u8>,
    pos: u64,
    chunks: Vec<Chunk>,
    seek_fails: usize,
    calls: usize,
}

#[derive(Clone, Copy, Debug)]
enum Chunk {
    Up(usize),
    Fail(ErrorKind),
}

impl Read for File {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        let most = match self.chunks.pop().unwrap_or(Chunk::Up(usize::MAX)) {
            Chunk::Up(n) => n,
            Chunk::Fail(k) => return Err(k.into()),
        };
        let at = (self.pos as usize).min(self.content.len());
        let n = out.len().min(most.max(1)).min(self.content.len() - at);
        out[..n].copy_from_slice(&self.content[at..at + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for File {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        if self.seek_fails > 0 {
            self.seek_fails -= 1;
            return Err(Error::from_raw_os_error(29));
        }
        match target(self.content.len() as u64, self.pos, to) {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::from_raw_os_error(22)),
        }
    }
}

fn target(len: u64, pos: u64, to: SeekFrom) -> Option<u64> {
    let p = match to {
        SeekFrom::Start(n) => i64::try_from(n).ok()?,
        SeekFrom::Current(n) => (pos as i64).checked_add(n)?,
        SeekFrom::End(n) => (len as i64).checked_add(n)?,
    };
    u64::try_from(p).ok()
}

fn reading(src: &mut Src, cx: &mut Cx) -> R {
    let len = match src.below(4) {
        0 => src.usize(10),
        1 => src.usize(300),
        2 => CAPA + src.usize(5) - 2,
        _ => src.usize(4 * CAPA),
    };
    // Newlines rare or common.
    let lines = src.bool();
    let mut content: Vec<u8> = (0..len).map(|i| if lines && i % 7 == 3 { b'\n' } else { byte(i) }).collect();
    note!(cx, "a file of {len} bytes");
    let mut r = IoReader::new(File { content: content.clone(), pos: 0, chunks: vec![], seek_fails: 0, calls: 0 });
    let mut pos: u64 = 0;
    let mut busy = 0;
    while src.more(14) {
        src.begin();
        let mut chunks = vec![];
        while chunks.len() < 6 && src.more(1) {
            chunks.push(match src.weighted(&[8, 1, 1, 1]) {
                0 => Chunk::Up(amount(src)),
                1 => Chunk::Fail(ErrorKind::Interrupted),
                2 => Chunk::Fail(ErrorKind::WouldBlock),
                _ => Chunk::Fail(ErrorKind::BrokenPipe),
            });
        }
        if !chunks.is_empty() {
            note!(cx, "the next reads will {chunks:?}");
            chunks.reverse();
        }
        // The last of these errors reported, if any.
        let failing = |k: ErrorKind, chunks: &[Chunk]| chunks.iter().any(|c| matches!(c, Chunk::Fail(x) if *x == k));
        let fails = chunks.clone();
        r.get_mut().chunks = chunks;
        let rest = &content[(pos as usize).min(content.len())..];
        match src.weighted(&[10, 4, 4, 3, 8, 2, 2]) {
            0 => {
                let n = amount(src);
                let mut out = vec![0xAAu8; n];
                note!(cx, "read {n} at {pos}");
                match r.read(&mut out) {
                    Ok(k) => {
                        ensure!(k <= n, "read {k} of {n} bytes");
                        ensure!(k > 0 || n == 0 || rest.is_empty(), "read nothing of {n} with {} bytes left", rest.len());
                        ensure!(rest.len() >= k && out[..k] == rest[..k], "read of {n} at {pos} returned {k} wrong bytes");
                        ensure!(out[k..].iter().all(|b| *b == 0xAA), "read wrote beyond what it returned");
                        pos += k as u64;
                        busy += (k > 0) as u32;
                    }
                    Err(e) => ensure!(failing(e.kind(), &fails), "read failed with {e}"),
                }
            }
            1 => {
                note!(cx, "peek at {pos}");
                match r.fill_buf() {
                    Ok(b) => {
                        let b = b.to_vec();
                        ensure!(rest.starts_with(&b), "peek at {pos} gave {} wrong bytes", b.len());
                        ensure!(!b.is_empty() || rest.is_empty(), "peek gave nothing with {} bytes left", rest.len());
                        let n = if src.bool() { src.usize(b.len() + 1) } else { b.len() };
                        note!(cx, "  {} bytes, consume {n}", b.len());
                        r.consume(n);
                        pos += n as u64;
                    }
                    Err(e) => ensure!(failing(e.kind(), &fails), "peek failed with {e}"),
                }
            }
            2 => {
                note!(cx, "read a line at {pos}");
                let mut out = vec![];
                match r.read_until(b'\n', &mut out) {
                    Ok(k) => {
                        let want = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |p| p + 1);
                        same!(k, want, "length of the line at {pos}");
                        ensure!(out == rest[..want], "the line at {pos} differs");
                        busy += (k > 0) as u32;
                    }
                    // What was read before the error stays read.
                    Err(e) => {
                        ensure!(failing(e.kind(), &fails), "reading a line failed with {e}");
                        ensure!(rest.starts_with(&out), "the part of the line at {pos} read before the error differs");
                    }
                }
                pos += out.len() as u64;
            }
            3 => {
                let n = amount(src);
                note!(cx, "read exactly {n} at {pos}");
                r.get_mut().chunks.retain(|c| matches!(c, Chunk::Up(_) | Chunk::Fail(ErrorKind::Interrupted)));
                let mut out = vec![0u8; n];
                match r.read_exact(&mut out) {
                    Ok(()) => {
                        ensure!(rest.len() >= n && out == rest[..n], "exact read of {n} at {pos} differs");
                        pos += n as u64;
                        busy += (n > 0) as u32;
                    }
                    Err(e) => {
                        same!(e.kind(), ErrorKind::UnexpectedEof, "failure of an exact read of {n} at {pos}");
                        ensure!(rest.len() < n, "an exact read of {n} with {} bytes left ended early", rest.len());
                        pos += rest.len() as u64;
                    }
                }
            }
            4 => {
                let far = src.pick(&[0i64, 1, -1, 5, -5, 100, -100, CAPA as i64, -(CAPA as i64), 3, i64::MIN, i64::MIN + 3, i64::MAX, i64::MAX - 8000]);
                let to = match src.below(4) {
                    0 => SeekFrom::Start(if far < 0 { src.usize(len + 3) as u64 } else { far as u64 }),
                    1 => SeekFrom::End(if src.bool() { far } else { -(src.usize(len + 3) as i64) }),
                    2 => SeekFrom::Current(src.usize(200) as i64 - 100),
                    _ => SeekFrom::Current(far),
                };
                let broken = src.chance(1, 12) as usize;
                note!(cx, "seek to {to:?} from {pos}{}", if broken > 0 { ", failing" } else { "" });
                r.get_mut().seek_fails = broken;
                let want = target(content.len() as u64, pos, to).filter(|p| *p <= i64::MAX as u64 / 2);
                match r.seek(to) {
                    Ok(p) => {
                        ensure!(broken == 0, "a failed seek was reported as a success");
                        let exact = target(content.len() as u64, pos, to);
                        same!(Some(p), exact, "position after seeking to {to:?} from {pos}");
                        same!(r.get_ref().pos, p, "position of the descriptor after seeking to {to:?} from {pos}");
                        ensure!(r.buffer().is_empty(), "bytes are still buffered after a seek");
                        pos = p;
                        busy += 1;
                        if pos > 1 << 40 {
                            // back from beyond all files
                            r.get_mut().seek_fails = 0;
                            let b = r.seek(SeekFrom::Start(0));
                            ensure!(matches!(b, Ok(0)), "seeking back gave {b:?}");
                            pos = 0;
                        }
                    }
                    Err(e) => ensure!(broken > 0 || want.is_none(), "seeking to {to:?} from {pos} failed with {e}"),
                }
                r.get_mut().seek_fails = 0;
            }
            5 => {
                // What the unbuffered paths do: settle the position, use the descriptor, go on.
                note!(cx, "overwrite through the descriptor at {pos}");
                let p = r.seek(SeekFrom::Current(0)).map_err(|e| format!("asking for the position failed with {e}"))?;
                same!(p, pos, "the position");
                same!(r.get_ref().pos, pos, "the position of the descriptor");
                let n = src.usize(20);
                let f = r.get_mut();
                for k in 0..n {
                    let at = f.pos as usize + k;
                    if at >= f.content.len() {
                        f.content.resize(at + 1, 0);
                        content.resize(at + 1, 0);
                    }
                    f.content[at] = b'#';
                    content[at] = b'#';
                }
                f.pos += n as u64;
                pos += n as u64;
            }
            _ => {
                // Another process appends.
                let n = src.usize(50);
                note!(cx, "{n} bytes are appended");
                for k in 0..n {
                    let b = byte(content.len());
                    content.push(b);
                    r.get_mut().content.push(b);
                }
            }
        }
        let held = r.buffer().to_vec();
        let rest = &content[(pos as usize).min(content.len())..];
        ensure!(rest.starts_with(&held), "the {} bytes buffered are not those at {pos}", held.len());
        same!(r.get_ref().pos, pos + held.len() as u64, "the position of the descriptor with {} bytes buffered at {pos}", held.len());
        src.end();
    }
    // Reading on gives the rest of the file.
    r.get_mut().chunks.clear();
    let mut out = vec![];
    r.read_to_end(&mut out).map_err(|e| format!("reading the rest failed with {e}"))?;
    let rest = &content[(pos as usize).min(content.len())..];
    ensure!(out == rest, "the rest of the file at {pos} has {} bytes, {} were read, or they differ", rest.len(), out.len());
    let f = r.into_inner();
    same!(f.pos, (content.len() as u64).max(pos), "the position of the descriptor in the end");
    if busy >= 3 {
        cx.nontrivial();
    }
    if len > CAPA {
        cx.label("more than one buffer full");
    }
    Ok(())
}

fn main() {
    pbt::main(&[
        Prop {
            id: "C27",
            rule: "a history of writes, flushes and mode changes over a scripted descriptor; non-trivial when a call was stopped early and bytes were accepted, or when a pipe carried more than one buffer full",
            assumptions: &["a write given up after a signal or an error is not continued later", "rustc and the operating system"],
            level: "fault_enumeration",
            known: &[],
            suites: &[
                Suite { name: "writing", cases: 1_000_000, run: writing },
                Suite { name: "pipes", cases: 8_000, run: pipes },
            ],
        },
        Prop {
            id: "C28",
            rule: "a history of reads, peeks, line reads, seeks and outside changes over a scripted file; non-trivial when at least three of them moved the position",
            assumptions: &["the file is not changed behind the buffer except by appending or after the position was settled", "rustc and the operating system"],
            level: "exploration",
            known: &[],
            suites: &[Suite { name: "reading", cases: 2_000_000, run: reading }],
        },
    ]);
}
