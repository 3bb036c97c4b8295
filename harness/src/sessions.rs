//! Replays histories of detections (Session.tla): outcomes depend on the content only, whatever was
//! detected before, through whichever entry point, and whatever other threads detect meanwhile.
use crate::entry;
use file_format::FileFormat;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::io::{BufRead, Cursor, Read, Seek, SeekFrom, Write};
use std::path::PathBuf;
use std::sync::mpsc::{channel, Receiver, Sender};
use std::sync::{Barrier, Mutex};

/// A history per line: "content:entry content:entry ...".
pub fn main(histories: &str, dir: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<crate::Case> =
        std::io::stdin().lock().lines().map(|l| crate::parse(l.unwrap().trim_end_matches('\n'))).collect();
    let bytes: Vec<Vec<u8>> = cases.iter().map(|c| c.src.bytes()).collect();
    let before = bytes.clone();
    let files: Vec<PathBuf> = bytes.iter().map(|b| entry::write(dir, b)).collect();
    let text = std::fs::read_to_string(histories).expect("histories");
    let histories: Vec<Vec<(usize, usize)>> = text
        .lines()
        .map(|l| {
            l.split(' ')
                .map(|s| {
                    let (a, b) = s.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect()
        })
        .collect();
    let bad = Mutex::new(vec![]);
    let step = |h: usize, k: usize, how: &str| {
        let (c, e) = histories[h][k];
        let (name, got) = if e < entry::MEMORY.len() {
            let name = entry::MEMORY[e];
            (name, entry::memory(name, &bytes[c]))
        } else {
            let name = entry::FILES[(e - entry::MEMORY.len()) % entry::FILES.len()];
            (name, entry::file(name, &files[c]))
        };
        if got != cases[c].want {
            bad.lock().unwrap().push((h, k, format!("{how} {name}"), got, cases[c].want.clone(), cases[c].id.clone()));
        }
    };
    // One thread.
    for h in 0..histories.len() {
        for k in 0..histories[h].len() {
            step(h, k, "alone");
        }
    }
    // Several threads, each with its own order.
    const THREADS: usize = 4;
    let barrier = Barrier::new(THREADS);
    std::thread::scope(|s| {
        for t in 0..THREADS {
            let (step, barrier, histories) = (&step, &barrier, &histories);
            s.spawn(move || {
                barrier.wait();
                let n = histories.len();
                for i in 0..n {
                    let h = match t {
                        0 => i,
                        1 => n - 1 - i,
                        2 => (i + n / 2) % n,
                        _ => (i * 7919) % n,
                    };
                    for k in 0..histories[h].len() {
                        step(h, k, "threads");
                    }
                }
            });
        }
    });
    let mut out = std::io::stdout().lock();
    for (h, k, how, got, want, id) in bad.lock().unwrap().iter().take(50) {
        writeln!(out, "M\t{h}\t{k}\t{how}\t{got}\t{want}\t{id}").unwrap();
    }
    for (i, f) in files.iter().enumerate() {
        if bytes[i] != before[i] || std::fs::read(f).ok().as_deref() != Some(&before[i][..]) {
            writeln!(out, "M\t0\t0\tcontent\tmodified\tunmodified\t{}", cases[i].id).unwrap();
        }
        let _ = std::fs::remove_file(f);
    }
    writeln!(out, "STAT\t{}\t{}", histories.len(), histories.iter().map(Vec::len).sum::<usize>() * (THREADS + 1)).unwrap();
}

/// A reader that makes each call of read or seek only when it is its turn.
struct Gated<'a> {
    cursor: Cursor<&'a [u8]>,
    ready: Sender<usize>,
    turn: Receiver<()>,
    who: usize,
}

impl Gated<'_> {
    fn wait(&self) {
        // Behind the end of the schedule nobody listens any more.
        if self.ready.send(self.who).is_ok() {
            let _ = self.turn.recv();
        }
    }
}

impl Read for Gated<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.wait();
        self.cursor.read(buf)
    }
}

impl Seek for Gated<'_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.wait();
        self.cursor.seek(to)
    }
}

/// Detects two contents in two threads whose calls are ordered by the word; behind it the first one that is
/// ready goes on alone.  Returns the results.
fn schedule(pair: [&[u8]; 2], word: &[u8]) -> [String; 2] {
    let (ready, listen) = channel();
    let mut turns = vec![];
    let mut gates = vec![];
    for who in 0..2 {
        let (turn, wait) = channel();
        turns.push(turn);
        gates.push(Gated { cursor: Cursor::new(pair[who]), ready: ready.clone(), turn: wait, who });
    }
    std::thread::scope(|s| {
        let threads: Vec<_> = gates
            .into_iter()
            .map(|g| {
                let (ready, who) = (g.ready.clone(), g.who);
                s.spawn(move || {
                    let got = crate::show(move || FileFormat::from_reader(g));
                    let _ = ready.send(who + 2);
                    got
                })
            })
            .collect();
        let mut waiting = [false; 2];
        let mut over = [false; 2];
        let mut word = word.iter();
        while over != [true; 2] {
            let who = match word.next() {
                Some(w) => (*w - b'1') as usize,
                None => usize::from(over[0]),
            };
            while !waiting[who] && !over[who] {
                match listen.recv().unwrap() {
                    w @ (0 | 1) => waiting[w] = true,
                    w => over[w - 2] = true,
                }
            }
            if waiting[who] {
                waiting[who] = false;
                let _ = turns[who].send(());
            }
        }
        let mut out = threads.into_iter().map(|t| t.join().unwrap_or_else(|_| "DIED".into()));
        [out.next().unwrap(), out.next().unwrap()]
    })
}

/// Lines "content content word" with the cases on the standard input.
pub fn interleave(schedules: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<crate::Case> =
        std::io::stdin().lock().lines().map(|l| crate::parse(l.unwrap().trim_end_matches('\n'))).collect();
    let bytes: Vec<Vec<u8>> = cases.iter().map(|c| c.src.bytes()).collect();
    let text = std::fs::read_to_string(schedules).expect("schedules");
    let lines: Vec<&str> = text.lines().collect();
    let mut bad = vec![];
    for (n, line) in lines.iter().enumerate() {
        let p: Vec<&str> = line.split(' ').collect();
        let of = |k: usize| p[k].parse::<usize>().unwrap();
        let got = schedule([&bytes[of(0)], &bytes[of(1)]], p[2].as_bytes());
        for k in 0..2 {
            let c = &cases[of(k)];
            if got[k] != c.want {
                bad.push(format!("M\t{n}\t{k}\t{}\t{}\t{}", got[k], c.want, c.id));
            }
        }
    }
    for l in bad.iter().take(50) {
        println!("{l}");
    }
    println!("STAT\t{}", lines.len());
}

/// What is still to start inside of other detections, and what came out.
struct Inner<'a> {
    bytes: &'a [Vec<u8>],
    /// Depth and call of the detection below, content.
    todo: VecDeque<(usize, u64, usize)>,
    done: Vec<(usize, String)>,
}

/// A reader that runs detections before it answers its calls.
struct Nested<'a, 'b> {
    cursor: Cursor<&'a [u8]>,
    depth: usize,
    calls: u64,
    inner: &'b RefCell<Inner<'a>>,
}

impl Nested<'_, '_> {
    fn before(&mut self) {
        self.calls += 1;
        loop {
            let next = self.inner.borrow().todo.front().copied();
            match next {
                Some((d, k, c)) if d == self.depth && k == self.calls => {
                    self.inner.borrow_mut().todo.pop_front();
                    nested(self.inner, self.depth + 1, c);
                }
                _ => break,
            }
        }
    }
}

impl Read for Nested<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.before();
        self.cursor.read(buf)
    }
}

impl Seek for Nested<'_, '_> {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        self.before();
        self.cursor.seek(to)
    }
}

fn nested(inner: &RefCell<Inner<'_>>, depth: usize, c: usize) {
    let all = inner.borrow().bytes;
    let bytes: &[u8] = &all[c];
    let got = crate::show(|| FileFormat::from_reader(Nested { cursor: Cursor::new(bytes), depth, calls: 0, inner }));
    inner.borrow_mut().done.push((c, got));
}

/// Lines "content,content,.. depth:call,depth:call,.." (the first content is the outermost one) with the cases on the
/// standard input.
pub fn nest(plans: &str) {
    std::panic::set_hook(Box::new(|_| {}));
    let cases: Vec<crate::Case> =
        std::io::stdin().lock().lines().map(|l| crate::parse(l.unwrap().trim_end_matches('\n'))).collect();
    let bytes: Vec<Vec<u8>> = cases.iter().map(|c| c.src.bytes()).collect();
    let text = std::fs::read_to_string(plans).expect("plans");
    let (mut lines, mut runs) = (0, 0);
    let mut bad = vec![];
    for (n, line) in text.lines().enumerate() {
        lines += 1;
        let (contents, starts) = line.split_once(' ').unwrap();
        let contents: Vec<usize> = contents.split(',').map(|c| c.parse().unwrap()).collect();
        let todo = starts
            .split(',')
            .zip(&contents[1..])
            .map(|(s, c)| {
                let (d, k) = s.split_once(':').unwrap();
                (d.parse().unwrap(), k.parse().unwrap(), *c)
            })
            .collect();
        let inner = RefCell::new(Inner { bytes: &bytes, todo, done: vec![] });
        nested(&inner, 1, contents[0]);
        for (c, got) in inner.into_inner().done {
            runs += 1;
            if got != cases[c].want {
                bad.push(format!("M\t{n}\t{c}\t{got}\t{}", cases[c].want));
            }
        }
    }
    for l in bad.iter().take(50) {
        println!("{l}");
    }
    println!("STAT\t{lines}\t{runs}");
}
