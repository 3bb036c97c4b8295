//! The neighbourhood of a stream: every value of every byte, every number and word of the
//! specification's neighbourhood alphabet at every position, over what is there or put in between,
//! parts changed or left out.  Most neighbours share the result of the stream; the others are
//! grouped by position, kind of change and result, and samples of all groups are handed to the
//! specification, which tells whether the result is right.
use crate::stream::Source;
use crate::{show, CASE_NO};
use file_format::FileFormat;
use std::collections::BTreeMap;
use std::io::Write;
use std::sync::atomic::Ordering;
use std::sync::Arc;

pub struct Around {
    positions: usize,
    most: u64,
    seed: u64,
    same: u64,
    words: Vec<(String, Vec<u8>)>,
    /// What opens something, and what closes it.
    wraps: Vec<(Vec<u8>, Vec<u8>)>,
}

fn unhex(x: &str) -> Vec<u8> {
    (0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect()
}

struct Rng(u64);
impl Rng {
    fn below(&mut self, n: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 8) % n.max(1)
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// A group of neighbours: how many, and samples of them.
type Group = (u64, Vec<String>);

struct Walk<'a> {
    base: &'a [u8],
    want: String,
    rng: Rng,
    runs: u64,
    step: u64,
    groups: BTreeMap<(usize, String, String), Group>,
    same: Vec<String>,
    keep: u64,
    agreed: u64,
}

impl Walk<'_> {
    /// Whether the next neighbour is among those to examine.
    fn due(&mut self) -> bool {
        self.step <= 1 || self.rng.below(self.step) == 0
    }

    fn see(&mut self, at: usize, class: &str, change: impl Fn() -> String, b: &[u8]) {
        self.runs += 1;
        let got = show(|| Ok(FileFormat::from_bytes(b)));
        if got == self.want {
            // A sample of those that agree.
            self.agreed += 1;
            if (self.same.len() as u64) < self.keep {
                self.same.push(change());
            } else if self.keep > 0 && self.rng.below(self.agreed) < self.keep {
                let i = self.rng.below(self.keep) as usize;
                self.same[i] = change();
            }
            return;
        }
        let g = self.groups.entry((at, class.to_string(), got)).or_default();
        g.0 += 1;
        if g.1.len() < 3 {
            g.1.push(change());
        } else if self.rng.below(g.0) < 2 {
            let i = 1 + self.rng.below(2) as usize;
            g.1[i] = change();
        }
    }

    /// Replaces n bytes at position at.
    fn over(&mut self, buf: &mut [u8], at: usize, class: &str, w: &[u8]) {
        let n = w.len().min(self.base.len() - at);
        if n < w.len() || self.base[at..at + n] == *w {
            return;
        }
        buf[at..at + n].copy_from_slice(w);
        self.see(at, class, || format!("{at}:{n}:{}", hex(w)), buf);
        buf[at..at + n].copy_from_slice(&self.base[at..at + n]);
    }

    /// Replaces n bytes at position at by others, of any number.
    fn splice(&mut self, at: usize, n: usize, class: &str, w: &[u8]) {
        let mut b = Vec::with_capacity(self.base.len() + w.len());
        b.extend_from_slice(&self.base[..at]);
        b.extend_from_slice(w);
        b.extend_from_slice(&self.base[at + n..]);
        self.see(at, class, || format!("{at}:{n}:{}", hex(w)), &b);
    }
}

impl Around {
    /// First line: positions per stream, neighbours per stream, seed, agreeing samples per stream;
    /// then one word per line: its class and its bytes in hexadecimal ("wrap": two words, with a slash).
    pub fn parse(text: &str) -> Self {
        let mut lines = text.lines();
        let h: Vec<u64> = lines.next().unwrap().split(' ').map(|n| n.parse().unwrap()).collect();
        let mut words = vec![];
        let mut wraps = vec![];
        for l in lines {
            let (c, x) = l.split_once(' ').unwrap();
            match x.split_once('/') {
                Some((a, b)) => wraps.push((unhex(a), unhex(b))),
                None => words.push((c.to_string(), unhex(x))),
            }
        }
        Around { positions: h[0] as usize, most: h[1], seed: h[2], same: h[3], words, wraps }
    }

    /// Returns the number of neighbours.
    pub fn run(&self, id: &str, src: &Arc<Source>, out: &mut dyn Write) -> u64 {
        let base = src.bytes();
        let mut seed = self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ src.len.wrapping_mul(0x2545_F491_4F6C_DD1D);
        for b in id.bytes() {
            seed = (seed ^ u64::from(b)).wrapping_mul(0x100_0000_01B3);
        }
        let mut spots: Vec<usize> = src.spots().into_iter().map(|p| p as usize).filter(|p| *p < base.len()).collect();
        let mut rng = Rng(seed | 1);
        while spots.len() > self.positions {
            // Later positions are the first to go.
            let i = rng.below(spots.len() as u64).max(rng.below(spots.len() as u64));
            spots.remove(i as usize);
        }
        let widths = [1usize, 2, 3, 4, 8, 16, 32, 64];
        let all = spots.len() as u64 * (255 + self.words.len() as u64 * 3 / 2 + widths.len() as u64 * 9);
        let mut w = Walk {
            want: show(|| Ok(FileFormat::from_bytes(&base))),
            base: &base,
            rng,
            runs: 0,
            step: all / self.most.max(1),
            groups: BTreeMap::new(),
            same: vec![],
            keep: self.same,
            agreed: 0,
        };
        let mut buf = base.clone();
        for &p in &spots {
            CASE_NO.fetch_add(1, Ordering::SeqCst);
            // Bytes are never left out.
            for v in 0..=255 {
                w.over(&mut buf, p, "byte", &[v]);
            }
            for (class, word) in &self.words {
                let put = class.starts_with("put");
                if w.due() {
                    if put {
                        w.splice(p, 0, class, word);
                    } else {
                        w.over(&mut buf, p, class, word);
                    }
                }
            }
            for n in widths {
                if p + n > base.len() {
                    break;
                }
                let part = base[p..p + n].to_vec();
                let mut variants: Vec<Vec<u8>> = vec![vec![0; n], vec![255; n], vec![32; n], part.to_ascii_uppercase(), part.to_ascii_lowercase()];
                variants.push(part.iter().rev().copied().collect());
                if p + 2 * n <= base.len() {
                    // Twice the same; exchanged with what follows.
                    let next = &base[p + n..p + 2 * n];
                    variants.push([&part[..], &part[..]].concat());
                    variants.push([next, &part[..]].concat());
                }
                for v in variants {
                    w.over(&mut buf, p, "part", &v);
                }
                w.splice(p, n, "cut", &[]);
                w.splice(p, 0, "again", &part);
            }
        }
        // Something wrapped around a part.
        let pairs = spots.len() as u64 * spots.len() as u64 / 2 * self.wraps.len() as u64;
        w.step = pairs / (self.most / 4).max(1);
        for (i, &p) in spots.iter().enumerate() {
            CASE_NO.fetch_add(1, Ordering::SeqCst);
            for &q in &spots[i + 1..] {
                for (a, b) in &self.wraps {
                    if w.due() {
                        let mid = &base[p..q];
                        w.splice(p, q - p, "wrap", &[a, mid, b].concat());
                    }
                }
            }
        }
        for ((at, class, got), (n, samples)) in &w.groups {
            writeln!(out, "N\t{id}\t{class}\t{n}\t{at}\t{got}\t{}", samples.join(" ")).unwrap();
        }
        if !w.same.is_empty() {
            writeln!(out, "N\t{id}\tsame\t{}\t0\t{}\t{}", w.agreed, w.want, w.same.join(" ")).unwrap();
        }
        w.runs
    }
}
