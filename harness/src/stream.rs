//! Streams of the specification, delivered as a plan says.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::sync::{Arc, LazyLock};

pub struct Seg {
    pub at: u64,
    pub n: u64,
    pub b: Vec<u8>,
}

/// A stream: segments of repeated bytes, with damage on top.
#[derive(Clone)]
pub struct Source {
    pub len: u64,
    pub segs: Arc<Vec<Seg>>,
    pub over: Vec<(u64, Vec<u8>)>,
}

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}

impl Source {
    pub fn parse(len: &str, segs: &str) -> Self {
        let segs = segs
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| {
                let p: Vec<&str> = s.split(':').collect();
                Seg { at: p[0].parse().expect("at"), n: p[1].parse().expect("n"), b: unhex(p[2]) }
            })
            .collect();
        Source { len: len.parse().expect("len"), segs: Arc::new(segs), over: vec![] }
    }
    /// Interesting positions: all of the segments without repetition, the borders of the others.
    pub fn spots(&self) -> Vec<u64> {
        let mut v: Vec<u64> = vec![];
        for g in self.segs.iter() {
            let l = g.b.len() as u64;
            if g.n <= 400 || g.n == l {
                v.extend((g.at..g.at + g.n.min(1500)).chain(g.at + g.n.max(1500) - 1500..g.at + g.n));
            } else {
                v.extend((g.at..g.at + l.min(60)).chain(g.at + g.n - 2..g.at + g.n));
            }
        }
        v.sort();
        v.dedup();
        v
    }
    /// Fills buf from position pos; the caller keeps within the stream.
    pub fn fill(&self, pos: u64, buf: &mut [u8]) {
        self.fill_clean(pos, buf);
        let end = pos + buf.len() as u64;
        for (at, b) in &self.over {
            let (lo, hi) = ((*at).max(pos), (at + b.len() as u64).min(end));
            if lo < hi {
                buf[(lo - pos) as usize..(hi - pos) as usize].copy_from_slice(&b[(lo - at) as usize..(hi - at) as usize]);
            }
        }
    }
    fn fill_clean(&self, pos: u64, buf: &mut [u8]) {
        let mut i = match self.segs.binary_search_by(|g| g.at.cmp(&pos)) {
            Ok(i) => i,
            Err(0) => 0,
            Err(i) => i - 1,
        };
        let mut done = 0;
        while done < buf.len() {
            let p = pos + done as u64;
            while i < self.segs.len() && self.segs[i].at + self.segs[i].n <= p {
                i += 1;
            }
            if i >= self.segs.len() || p < self.segs[i].at {
                let end = if i < self.segs.len() { self.segs[i].at } else { u64::MAX };
                let k = ((end - p).min((buf.len() - done) as u64)) as usize;
                buf[done..done + k].fill(0);
                done += k;
                continue;
            }
            let g = &self.segs[i];
            let k = ((g.at + g.n - p).min((buf.len() - done) as u64)) as usize;
            let l = g.b.len();
            if l == 1 {
                buf[done..done + k].fill(g.b[0]);
            } else {
                let mut o = ((p - g.at) % l as u64) as usize;
                let mut d = 0;
                while d < k {
                    let t = (l - o).min(k - d);
                    buf[done + d..done + d + t].copy_from_slice(&g.b[o..o + t]);
                    d += t;
                    o = 0;
                }
            }
            done += k;
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = vec![0; self.len as usize];
        self.fill(0, &mut v);
        v
    }
}

/// An injected failure.
#[derive(Clone, Copy)]
pub enum Fault {
    /// A kind with a message.
    Custom(ErrorKind),
    /// A kind alone.
    Simple(ErrorKind),
    /// What the operating system reports.
    Os(i32),
}

impl Fault {
    fn error(self) -> Error {
        match self {
            Fault::Custom(k) => Error::new(k, MESSAGE),
            Fault::Simple(k) => Error::from(k),
            Fault::Os(n) => Error::from_raw_os_error(n),
        }
    }
}

/// Every kind but the interruption, which is to be retried.
const ERROR_KINDS: [ErrorKind; 37] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::PermissionDenied,
    ErrorKind::NotFound,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::InvalidInput,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::InvalidFilename,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];
/// Numbers of the operating system, all but EINTR, and some without a meaning.
fn error_numbers() -> impl Iterator<Item = i32> {
    (1..=134).filter(|n| *n != 4).chain([255, 512, 523, 9999, i32::MAX, -1])
}

/// All failures, by name.
pub fn faults() -> Vec<(String, Fault)> {
    let mut v: Vec<(String, Fault)> = vec![];
    for k in ERROR_KINDS {
        v.push((format!("{k:?}"), Fault::Custom(k)));
    }
    let mut numbers = error_numbers();
    for k in ERROR_KINDS {
        v.push((format!("bare-{k:?}"), Fault::Simple(k)));
        v.extend(numbers.by_ref().take(4).map(|n| (format!("os-{n}"), Fault::Os(n))));
    }
    v
}

#[derive(Clone, Copy, PartialEq)]
enum Step {
    Full,
    Max(usize),
    Interrupt,
}

/// How a stream is delivered.
/// "read:1,I,5,*"  the reads return at most 1 byte, an interruption, at most 5, all; repeatedly
/// "call:K:once|ever:KIND"  the K-th call (read or seek) fails (and so do all later ones)
/// "pos:P:once|ever:KIND"   reading the byte at P fails
/// "first:1,I,5"            the same, but everything after these reads
/// "chunk:N"                no read crosses a multiple of N
/// "stop:P"                 no read crosses P
/// "int:K"                  the K-th read is interrupted once
#[derive(Default, Clone)]
pub struct Plan {
    steps: Vec<Step>,
    call: Option<u64>,
    pos: Option<u64>,
    interrupt: Option<u64>,
    chunk: Option<u64>,
    stop: Option<u64>,
    cycle: bool,
    once: bool,
    kind: Option<Fault>,
}

impl Plan {
    pub fn parse(text: &str) -> Self {
        let mut plan = Plan::default();
        for part in text.split(';') {
            let p: Vec<&str> = part.split(':').collect();
            if p[0] == "read" || p[0] == "first" {
                plan.cycle = p[0] == "read";
                plan.steps = p[1]
                    .split(',')
                    .map(|t| match t {
                        "*" => Step::Full,
                        "I" => Step::Interrupt,
                        n => Step::Max(n.parse().expect("plan")),
                    })
                    .collect();
            } else if p[0] == "chunk" {
                plan.chunk = Some(p[1].parse().expect("plan"));
            } else if p[0] == "stop" {
                plan.stop = Some(p[1].parse().expect("plan"));
            } else if p[0] == "int" {
                plan.interrupt = Some(p[1].parse().expect("plan"));
            } else {
                let n = p[1].parse().expect("plan");
                if p[0] == "call" {
                    plan.call = Some(n)
                } else {
                    plan.pos = Some(n)
                }
                plan.once = p[2] == "once";
                plan.kind = Some(FAULTS.iter().find(|k| k.0 == p[3]).expect("kind").1);
            }
        }
        plan
    }
}

pub static FAULTS: LazyLock<Vec<(String, Fault)>> = LazyLock::new(faults);
const MESSAGE: &str = "injected failure";
/// Size of the window in which signatures are matched.
const WINDOW: u64 = 36_870;

pub struct Virtual {
    src: Arc<Source>,
    plan: Plan,
    pos: u64,
    step: usize,
    reads: u64,
    pub calls: u64,
    pub bytes: u64,
    /// Bytes delivered without a gap from the start.
    prefix: u64,
    /// The window was delivered completely (or the end of the stream was shown before a failure).
    window_done: bool,
    failed: bool,
    /// A read failed before the window was delivered.
    failed_window: bool,
    /// A seek failed before the window was delivered.
    failed_window_seek: bool,
}

impl Virtual {
    pub fn new(src: &Arc<Source>, plan: Plan) -> Self {
        Virtual {
            src: src.clone(),
            plan,
            pos: 0,
            step: 0,
            reads: 0,
            calls: 0,
            bytes: 0,
            prefix: 0,
            window_done: false,
            failed: false,
            failed_window: false,
            failed_window_seek: false,
        }
    }
    fn fail(&mut self, seek: bool) -> Error {
        self.failed = true;
        if !self.window_done {
            if seek {
                self.failed_window_seek = true;
            } else {
                self.failed_window = true;
            }
        }
        self.plan.kind.unwrap().error()
    }
    fn call_fails(&self) -> bool {
        match self.plan.call {
            Some(k) => {
                if self.plan.once {
                    self.calls == k
                } else {
                    self.calls >= k
                }
            }
            None => self.failed && !self.plan.once,
        }
    }
    /// What happened under this plan, in the terms of the specification (Faults.tla): when the
    /// fault struck, and how the outcome relates to the one without the fault.
    pub fn observe(&self, got: &str, want: &str) -> (&'static str, &'static str) {
        let injected = self.plan.kind.map(|k| crate::show(|| Err(k.error())));
        let out = if got == "PlainText" {
            "text"
        } else if got == "ArbitraryBinaryData" {
            "default"
        } else if got == want {
            "specific"
        } else if Some(got) == injected.as_deref() {
            "error"
        } else if got.starts_with("PANIC") {
            "panic"
        } else {
            "other"
        };
        let struck = if self.failed_window || (self.failed_window_seek && out == "error") {
            "window"
        } else if self.failed {
            "later"
        } else {
            "no"
        };
        (struck, out)
    }
}

impl Read for Virtual {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.calls += 1;
        if self.call_fails() {
            return Err(self.fail(false));
        }
        self.reads += 1;
        if self.plan.interrupt == Some(self.reads) {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut max = buf.len();
        if let Some(n) = self.plan.chunk {
            max = max.min((n - self.pos % n) as usize);
        }
        if let Some(p) = self.plan.stop {
            if self.pos < p {
                max = max.min((p - self.pos) as usize);
            }
        }
        if !self.plan.steps.is_empty() && (self.plan.cycle || self.step < self.plan.steps.len()) {
            let s = self.plan.steps[self.step % self.plan.steps.len()];
            self.step += 1;
            match s {
                Step::Interrupt => return Err(Error::new(ErrorKind::Interrupted, "interrupted")),
                Step::Max(n) => max = max.min(n),
                Step::Full => {}
            }
        }
        let mut n = (max as u64).min(self.src.len.saturating_sub(self.pos));
        if let Some(p) = self.plan.pos {
            // The byte at p (the end of the stream, if p is its length) cannot be read.
            if !(self.failed && self.plan.once) && !buf.is_empty() && p <= self.src.len {
                if self.pos == p {
                    return Err(self.fail(false));
                } else if self.pos < p {
                    n = n.min(p - self.pos);
                }
            }
        }
        let n = n as usize;
        self.src.fill(self.pos, &mut buf[..n]);
        if self.pos <= self.prefix {
            self.prefix = self.prefix.max(self.pos + n as u64);
            if self.prefix >= WINDOW || (n == 0 && !buf.is_empty() && self.prefix >= self.src.len) {
                self.window_done = true;
            }
        }
        self.pos += n as u64;
        self.bytes += n as u64;
        Ok(n)
    }
}

impl Seek for Virtual {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.calls += 1;
        if self.call_fails() {
            return Err(self.fail(true));
        }
        let p = match to {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(d) => self.src.len.checked_add_signed(d),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
        };
        match p {
            Some(p) => {
                self.pos = p;
                Ok(p)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "seek to a negative or overflowing position")),
        }
    }
}
