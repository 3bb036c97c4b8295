//! Damages the streams of the specification: every value of its damage alphabet at every position,
//! truncation at every position, and a sample of combinations.  Whatever happens, detection must
//! return a format (which format, is compared with the specification for the cases TLC explores).
use crate::stream::{Plan, Source, Virtual};
use crate::{alloc, show, CASE_NO};
use file_format::FileFormat;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Mutex};

/// The stream that is being examined, for the watchdog.
pub static CURRENT: Mutex<Option<Arc<Source>>> = Mutex::new(None);

pub fn describe(s: &Source) -> String {
    let mut t: Vec<String> = s
        .over
        .iter()
        .map(|(p, b)| format!("{p}:{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()))
        .collect();
    t.push(format!("len:{}", s.len));
    t.join(";")
}

pub struct Damage {
    values: Vec<Vec<u8>>,
    combos: u64,
    seed: u64,
    cap: usize,
}

/// What was done, the result if it is not a format, heap, calls and bytes.
type Report<'a> = dyn FnMut(&Source, Option<String>, usize, u64, u64) + 'a;

impl Damage {
    /// First line: number of combinations per stream, seed, how many single damages to apply
    /// at most; then the values in hexadecimal.
    pub fn parse(text: &str) -> Self {
        let mut lines = text.lines();
        let h: Vec<u64> = lines.next().unwrap().split(' ').map(|n| n.parse().unwrap()).collect();
        let values = lines
            .map(|l| (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect())
            .collect();
        Damage { values, combos: h[0], seed: h[1], cap: h[2] as usize }
    }

    pub fn run(&self, src: &Arc<Source>, report: &mut Report) {
        let spots = src.spots();
        if rng_is_zero(self.seed, src.len) || spots.is_empty() {
            return;
        }
        let mut rng = self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ src.len;
        let mut next = move |n: u64| {
            rng ^= rng << 13;
            rng ^= rng >> 7;
            rng ^= rng << 17;
            rng % n.max(1)
        };
        let n = self.values.len();
        let mut step = spots.len() * n / self.cap + 1;
        while step > 1 && (step % 2 == 0 || n % step == 0 || step % 7 == 0) {
            step += 1;
        }
        for k in ((self.seed as usize % step)..spots.len() * n).step_by(step) {
            let (p, v) = (spots[k / n], &self.values[k % n]);
            self.one(src, vec![(p, v.clone())], None, report);
        }
        for &p in spots.iter().step_by(spots.len() / (self.cap / 4) + 1) {
            self.one(src, vec![], Some(p), report);
        }
        for _ in 0..self.combos {
            let mut over = vec![];
            for _ in 0..2 + next(3) {
                // Neighbouring fields as often as distant ones.
                let i = next(spots.len() as u64);
                over.push((spots[i as usize], self.values[next(n as u64) as usize].clone()));
                if next(2) == 0 {
                    let j = (i + 1 + next(24)).min(spots.len() as u64 - 1);
                    over.push((spots[j as usize], self.values[next(n as u64) as usize].clone()));
                }
            }
            let cut = (next(4) == 0).then(|| spots[next(spots.len() as u64) as usize]);
            self.one(src, over, cut, report);
        }
    }

    fn one(&self, src: &Arc<Source>, over: Vec<(u64, Vec<u8>)>, cut: Option<u64>, report: &mut Report) {
        // A sign of life for the watchdog.
        CASE_NO.fetch_add(1, Ordering::SeqCst);
        let len = cut.unwrap_or(src.len);
        let over = over
            .into_iter()
            .filter(|o| o.0 < len)
            .map(|(p, mut b)| {
                b.truncate((len - p) as usize);
                (p, b)
            })
            .collect();
        let s = Arc::new(Source { len, segs: src.segs.clone(), over });
        *CURRENT.lock().unwrap() = Some(s.clone());
        let mut v = Virtual::new(&s, Plan::default());
        let base = alloc::reset();
        let got = show(|| FileFormat::from_reader(&mut v));
        let heap = alloc::peak().saturating_sub(base);
        let mut bad = (got.starts_with("PANIC") || got.starts_with("Err")).then_some(got);
        if bad.is_none() && len <= 10_000 {
            let b = s.bytes();
            let got = show(|| Ok(FileFormat::from_bytes(&b)));
            bad = got.starts_with("PANIC").then(|| format!("{got} from bytes"));
        }
        report(&s, bad, heap, v.calls, v.bytes);
    }
}

fn rng_is_zero(seed: u64, len: u64) -> bool {
    seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ len == 0
}
