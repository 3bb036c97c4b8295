//! Conformance harness: runs the real detector on streams generated from the specification and
//! compares with the specified results, or records what it does.
//!
//! usage: conform run [--views LIST] [--plans FILE] [--sweep N] [--damage FILE] [--around FILE]
//!                    [--record] [--counters] [--watchdog SECONDS] [--dir SCRATCH] < cases
//!        conform sessions HISTORIES SCRATCH < cases   replays histories of detections
//!        conform interleave SCHEDULES < cases      two detections at once, with the given order of calls
//!        conform nest PLANS < cases                detections inside of detections
//!        conform special         detects files of the kernel
//!        conform open SCRATCH     detects files that cannot be opened or read
//!        conform features        prints the enabled reader features
//!        conform catalog         prints the metadata of every format (feature "catalog")
//!
//! A case is one line of tab-separated columns:
//!   id  reader  e11  e10  e01  e00  generic  len  segs  [plans, separated by blanks]
//! e11..e00: the specified result with the reader/text features on or off (first digit: the
//! feature of `reader`, second digit: text); segs: "at:n:hex" joined with ",": the bytes of hex,
//! repeated, over at..at+n.
mod alloc;
mod around;
mod damage;
#[cfg(feature = "catalog")]
mod catalog;
mod entry;
mod sessions;
mod stream;

use file_format::FileFormat;
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};
use stream::{Plan, Source, Virtual};

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

/// Whether the named reader feature is enabled.
fn enabled(reader: &str) -> bool {
    match reader {
        "asf" => cfg!(any(feature = "reader-asf", feature = "flags")),
        "cfb" => cfg!(any(feature = "reader-cfb", feature = "flags")),
        "ebml" => cfg!(any(feature = "reader-ebml", feature = "flags")),
        "exe" => cfg!(any(feature = "reader-exe", feature = "flags")),
        "id3v2" => cfg!(any(feature = "reader-id3v2", feature = "flags")),
        "mp4" => cfg!(any(feature = "reader-mp4", feature = "flags")),
        "pdf" => cfg!(any(feature = "reader-pdf", feature = "flags")),
        "rm" => cfg!(any(feature = "reader-rm", feature = "flags")),
        "sqlite3" => cfg!(any(feature = "reader-sqlite3", feature = "flags")),
        "txt" => cfg!(any(feature = "reader-txt", feature = "flags")),
        "xml" => cfg!(any(feature = "reader-xml", feature = "flags")),
        "zip" => cfg!(any(feature = "reader-zip", feature = "flags")),
        _ => false,
    }
}

pub struct Case {
    id: String,
    want: String,
    generic: String,
    src: std::sync::Arc<Source>,
    plans: Vec<String>,
}

fn parse(line: &str) -> Case {
    let c: Vec<&str> = line.split('\t').collect();
    assert!(c.len() == 9 || c.len() == 10, "bad case line: {line}");
    let txt = enabled("txt");
    let want = match (enabled(c[1]), txt) {
        (true, true) => c[2],
        (true, false) => c[3],
        (false, true) => c[4],
        (false, false) => c[5],
    };
    Case {
        id: c[0].to_string(),
        want: want.to_string(),
        generic: if txt { c[6] } else { "ArbitraryBinaryData" }.to_string(),
        src: std::sync::Arc::new(Source::parse(c[7], c[8])),
        plans: c.get(9).unwrap_or(&"").split(' ').filter(|p| !p.is_empty()).map(String::from).collect(),
    }
}

/// Longest stream that is also passed as a byte slice.
const MATERIALIZE: u64 = 64 << 20;

/// Result of one detection as text: the format, `Err(...)` or `PANIC(...)`.
pub fn show(f: impl FnOnce() -> std::io::Result<FileFormat>) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(fmt)) => format!("{fmt:?}"),
        Ok(Err(e)) => format!("Err({:?}: {e})", e.kind()).replace(['\t', '\n'], " "),
        Err(p) => {
            let m = if let Some(s) = p.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = p.downcast_ref::<String>() {
                s.clone()
            } else {
                "?".into()
            };
            format!("PANIC({m})").replace(['\t', '\n'], " ")
        }
    }
}

pub static CASE_NO: AtomicU64 = AtomicU64::new(0);
static DONE: AtomicBool = AtomicBool::new(false);

struct Opts {
    views: Vec<String>,
    plans: Vec<String>,
    sweep: u64,
    record: bool,
    counters: bool,
    damage: Option<damage::Damage>,
    around: Option<around::Around>,
    dir: String,
}

fn kind_of(fmt: &str) -> &'static str {
    match fmt {
        "PlainText" => "text",
        "ArbitraryBinaryData" => "default",
        _ => "specific",
    }
}

#[derive(Default)]
struct Stat {
    cases: u64,
    runs: u64,
    mismatches: u64,
    heap: (usize, String),
    calls: (u64, String),
    bytes: (u64, String),
}

fn run(o: &Opts) {
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let mut st = Stat::default();
    let mut seen = BTreeMap::new();
    let mut line = String::new();
    let mut input = stdin.lock();
    loop {
        line.clear();
        if input.read_line(&mut line).expect("stdin") == 0 {
            break;
        }
        let case = parse(line.trim_end_matches('\n'));
        CASE_NO.fetch_add(1, Ordering::SeqCst);
        // Lets the driver name the case when the process dies.
        writeln!(out, "S\t{}", case.id).unwrap();
        out.flush().unwrap();
        st.cases += 1;
        let report = |out: &mut dyn Write, st: &mut Stat, view: &str, got: String, ok: bool| {
            st.runs += 1;
            if o.record {
                writeln!(out, "R\t{}\t{view}\t{got}", case.id).unwrap();
            } else if !ok {
                st.mismatches += 1;
                if st.mismatches <= 200 {
                    writeln!(out, "M\t{}\t{view}\t{got}\t{}", case.id, case.want).unwrap();
                }
            }
        };
        for view in &o.views {
            if view == "virtual" {
                let mut v = Virtual::new(&case.src, Plan::default());
                let base = alloc::reset();
                let got = show(|| FileFormat::from_reader(&mut v));
                let heap = alloc::peak().saturating_sub(base);
                if o.counters {
                    let c = format!("{} {} {}", v.calls, v.bytes, heap);
                    st.runs += 1;
                    writeln!(out, "C\t{}\t{c}\t{got}", case.id).unwrap();
                    continue;
                }
                if heap > st.heap.0 {
                    st.heap = (heap, case.id.clone());
                }
                if v.calls > st.calls.0 {
                    st.calls = (v.calls, case.id.clone());
                }
                if v.bytes > st.bytes.0 {
                    st.bytes = (v.bytes, case.id.clone());
                }
                let ok = got == case.want;
                report(&mut out, &mut st, view, got, ok);
            } else if view == "sparse" {
                for (name, got) in entry::sparse(&case.src, &o.dir) {
                    let ok = got == case.want;
                    report(&mut out, &mut st, &name, got, ok);
                }
            } else if case.src.len <= MATERIALIZE {
                for (name, got) in entry::detect(view, &case.src, &o.dir) {
                    let ok = got == case.want;
                    report(&mut out, &mut st, &name, got, ok);
                }
            }
        }
        // Delivery and fault plans.
        for text in o.plans.iter().chain(&case.plans) {
            let plan = Plan::parse(text);
            let mut v = Virtual::new(&case.src, plan);
            let got = show(|| FileFormat::from_reader(&mut v));
            let ok = got == case.want;
            report(&mut out, &mut st, text, got, ok);
        }
        if let Some(d) = &o.damage {
            d.run(&case.src, &mut |s, got, heap, calls, bytes| {
                st.runs += 1;
                if heap > st.heap.0 {
                    st.heap = (heap, format!("{}@{}", case.id, damage::describe(s)));
                }
                if calls > st.calls.0 {
                    st.calls = (calls, format!("{}@{}", case.id, damage::describe(s)));
                }
                if bytes > st.bytes.0 {
                    st.bytes = (bytes, format!("{}@{}", case.id, damage::describe(s)));
                }
                if let Some(got) = got {
                    st.mismatches += 1;
                    if st.mismatches <= 200 {
                        writeln!(out, "M\t{}\tdamage {}\t{got}\ta format", case.id, damage::describe(s)).unwrap();
                    }
                }
            });
        }
        if let Some(a) = &o.around {
            st.runs += a.run(&case.id, &case.src, &mut out);
        }
        if o.sweep > 0 {
            let mut v = Virtual::new(&case.src, Plan::default());
            let want = show(|| FileFormat::from_reader(&mut v));
            let mut plans = vec![];
            let mut add = |what: &str, n: u64, k: usize| {
                for (j, how) in ["once", "ever"].iter().enumerate() {
                    // Of two failures at a place, one is of an ordinary kind.
                    let all = &stream::FAULTS;
                    let n = if (k + j) % 2 == 0 { k / 2 % 6 } else { (k + st.cases as usize * 7) % all.len() };
                    let kind = &all[n].0;
                    plans.push(format!("{what}:{n}:{how}:{kind}"));
                }
            };
            // Every call, or a selection of them, fails.
            let step = v.calls / o.sweep + 1;
            let mut k = 1;
            while k <= v.calls + 1 {
                add("call", k, k as usize);
                k += if k < o.sweep / 2 { 1 } else { step };
            }
            // The bytes at the interesting positions cannot be read.
            let len = case.src.len;
            let mut spots: Vec<u64> = case.src.spots();
            spots.extend([0, 1, 511, 512, 4096, 8191, 8192, 8197, 32_768, 32_868, 36_868, 36_869, 36_870, 36_871, 65_535, 65_536]);
            spots.extend([len, len.saturating_sub(1), len / 2, 33_554_436, 33_554_437]);
            spots.retain(|p| *p <= len);
            spots.sort();
            spots.dedup();
            let n = spots.len() as u64;
            for (k, p) in spots.into_iter().enumerate() {
                if (k as u64 * 2 < o.sweep) || (n - (k as u64)) * 2 < o.sweep || (k as u64) % (n / o.sweep + 1) == 0 {
                    add("pos", p, k);
                }
            }
            // Every kind of failure in a few places.
            for (j, (kind, _)) in stream::FAULTS.iter().enumerate() {
                let n = st.cases + j as u64;
                plans.push(format!("call:1:{}:{kind}", ["once", "ever"][j % 2]));
                plans.push(format!("call:{}:{}:{kind}", 1 + n * 31 % v.calls.max(1), ["ever", "once"][j % 2]));
                plans.push(format!("call:{}:ever:{kind}", v.calls.saturating_sub(n % 4).max(1)));
            }
            for text in plans {
                let mut v = Virtual::new(&case.src, Plan::parse(&text));
                let got = show(|| FileFormat::from_reader(&mut v));
                let (struck, class) = v.observe(&got, &want);
                st.runs += 1;
                let key = (struck, kind_of(&want), kind_of(&case.generic), class);
                seen.entry(key).and_modify(|x: &mut (u64, String)| x.0 += 1).or_insert_with(|| (1, format!("{}\t{text}\t{got}", case.id)));
            }
        }
    }
    for (k, x) in &seen {
        writeln!(out, "F\t{}\t{}\t{}\t{}\t{}\t{}", k.0, k.1, k.2, k.3, x.0, x.1).unwrap();
    }
    DONE.store(true, Ordering::SeqCst);
    writeln!(
        out,
        "STAT\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}",
        st.cases, st.runs, st.mismatches, st.heap.0, st.heap.1, st.calls.0, st.calls.1, st.bytes.0, st.bytes.1
    )
    .unwrap();
    out.flush().unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("features") => {
            for r in [
                "asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip",
            ] {
                if enabled(r) {
                    println!("{r}");
                }
            }
        }
        #[cfg(feature = "catalog")]
        Some("catalog") => catalog::print(),
        Some("sessions") => sessions::main(&args[2], &args[3]),
        Some("interleave") => sessions::interleave(&args[2]),
        Some("nest") => sessions::nest(&args[2]),
        Some("special") => entry::special(),
        Some("open") => entry::open(&args[2]),
        Some("run") => {
            let mut o = Opts {
                views: vec!["virtual".into()],
                plans: vec![],
                sweep: 0,
                record: false,
                counters: false,
                damage: None,
                around: None,
                dir: String::new(),
            };
            let mut limit = 20u64;
            let mut i = 2;
            while i < args.len() {
                let next = args.get(i + 1).cloned().unwrap_or_default();
                match args[i].as_str() {
                    "--views" => {
                        o.views = next.split(',').filter(|v| !v.is_empty()).map(String::from).collect();
                        i += 1
                    }
                    "--plans" => {
                        let t = std::fs::read_to_string(next).expect("plans");
                        o.plans = t.lines().map(String::from).collect();
                        i += 1
                    }
                    "--sweep" => {
                        o.sweep = next.parse().expect("number");
                        i += 1
                    }
                    "--record" => o.record = true,
                    "--counters" => o.counters = true,
                    "--damage" => {
                        o.damage = Some(damage::Damage::parse(&std::fs::read_to_string(next).expect("damage")));
                        i += 1
                    }
                    "--around" => {
                        o.around = Some(around::Around::parse(&std::fs::read_to_string(next).expect("alphabet")));
                        i += 1
                    }
                    "--dir" => {
                        o.dir = next;
                        i += 1
                    }
                    "--watchdog" => {
                        limit = next.parse().expect("seconds");
                        i += 1
                    }
                    x => panic!("unknown option {x}"),
                }
                i += 1;
            }
            std::panic::set_hook(Box::new(|_| {}));
            // A case (with all its views and plans) that takes too long ends the process with
            // status 97; the driver then names the last started case.
            let dog = std::thread::spawn(move || {
                let mut last = (0, Instant::now());
                while !DONE.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(50));
                    let n = CASE_NO.load(Ordering::SeqCst);
                    if n != last.0 {
                        last = (n, Instant::now());
                    } else if n > 0 && last.1.elapsed() > Duration::from_secs(limit) {
                        if let Some(s) = &*damage::CURRENT.lock().unwrap() {
                            eprintln!("{}", damage::describe(s));
                        }
                        std::process::exit(97);
                    }
                }
            });
            // The stack size of an ordinary spawned thread.
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn(move || run(&o))
                .unwrap()
                .join()
                .unwrap();
            dog.join().unwrap();
        }
        _ => {
            eprintln!("usage: conform run|features|catalog|sessions");
            std::process::exit(2);
        }
    }
}
