//! Every public way into the detector.
use crate::show;
use crate::stream::{Plan, Source, Virtual};
use file_format::FileFormat;
use std::borrow::Cow;
use std::ffi::{OsStr, OsString};
use std::fs::File;
use std::os::unix::ffi::OsStrExt;
use std::io::{BufReader, Cursor, Read, Seek};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

/// A reader that only implements the required methods.
struct Plain<R>(R);
impl<R: Read> Read for Plain<R> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(buf)
    }
}
impl<R: Seek> Seek for Plain<R> {
    fn seek(&mut self, to: std::io::SeekFrom) -> std::io::Result<u64> {
        self.0.seek(to)
    }
}

pub const MEMORY: [&str; 18] = [
    "slice", "vec", "ref_vec", "boxed", "rc", "cow", "cow_owned", "str", "from", "into", "array", "cursor_slice",
    "cursor_vec", "buf_small", "buf_large", "mut_ref", "dyn", "reuse",
];
pub const FILES: [&str; 11] = [
    "file_str", "file_string", "file_path", "file_pathbuf", "file_osstring", "file_reader", "file_buf", "file_raw_name",
    "file_link", "file_extension", "file_relative",
];

/// Detects through one in-memory entry point.
pub fn memory(how: &str, bytes: &[u8]) -> String {
    match how {
        "slice" => show(|| Ok(FileFormat::from_bytes(bytes))),
        "vec" => {
            let v = bytes.to_vec();
            show(move || Ok(FileFormat::from_bytes(v)))
        }
        "ref_vec" => {
            let v = bytes.to_vec();
            show(|| Ok(FileFormat::from_bytes(&v)))
        }
        "boxed" => {
            let b: Box<[u8]> = bytes.into();
            show(|| Ok(FileFormat::from_bytes(b)))
        }
        "rc" => {
            let b: Rc<[u8]> = bytes.into();
            show(|| Ok(FileFormat::from_bytes(&*b)))
        }
        "cow" => show(|| Ok(FileFormat::from_bytes(Cow::Borrowed(bytes)))),
        "cow_owned" => {
            let c: Cow<[u8]> = Cow::Owned(bytes.to_vec());
            show(|| Ok(FileFormat::from_bytes(c)))
        }
        "str" => match std::str::from_utf8(bytes) {
            Ok(s) => {
                let t = s.to_string();
                let a = show(|| Ok(FileFormat::from_bytes(s)));
                let b = show(|| Ok(FileFormat::from_bytes(t)));
                if a == b {
                    a
                } else {
                    format!("{a} from &str, {b} from String")
                }
            }
            Err(_) => memory("slice", bytes),
        },
        "from" => show(|| Ok(FileFormat::from(bytes))),
        "into" => show(|| Ok(bytes.into())),
        "array" => {
            if bytes.len() >= 16 {
                memory("slice", bytes)
            } else {
                // Arrays of each small length.
                macro_rules! arrays {
                    ($($n:literal)*) => {
                        match bytes.len() {
                            $($n => { let a: [u8; $n] = bytes.try_into().unwrap(); show(|| Ok(FileFormat::from_bytes(a))) })*
                            _ => unreachable!(),
                        }
                    };
                }
                arrays!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15)
            }
        }
        "cursor_slice" => show(|| FileFormat::from_reader(Cursor::new(bytes))),
        "cursor_vec" => show(|| FileFormat::from_reader(Cursor::new(bytes.to_vec()))),
        "buf_small" => show(|| FileFormat::from_reader(BufReader::with_capacity(1, Cursor::new(bytes)))),
        "buf_large" => show(|| FileFormat::from_reader(BufReader::with_capacity(100_000, Cursor::new(bytes)))),
        "mut_ref" => {
            let mut c = Plain(Cursor::new(bytes));
            show(|| FileFormat::from_reader(&mut c))
        }
        "dyn" => {
            let mut c: Box<dyn ReadSeek> = Box::new(BufReader::with_capacity(7, Cursor::new(bytes)));
            show(|| FileFormat::from_reader(&mut *c))
        }
        "reuse" => {
            // The same borrowed reader, rewound and used again.
            let mut c = BufReader::with_capacity(4096, Cursor::new(bytes));
            let a = show(|| FileFormat::from_reader(&mut c));
            c.rewind().unwrap();
            let b = show(|| FileFormat::from_reader(&mut c));
            if a == b {
                a
            } else {
                format!("{a}, then {b} from the same reader")
            }
        }
        x => panic!("unknown entry point {x}"),
    }
}

/// Detects a file through one entry point.
pub fn file(how: &str, path: &Path) -> String {
    match how {
        "file_str" => show(|| FileFormat::from_file(path.to_str().unwrap())),
        "file_string" => show(|| FileFormat::from_file(path.to_str().unwrap().to_string())),
        "file_path" => show(|| FileFormat::from_file(path)),
        "file_pathbuf" => show(|| FileFormat::from_file(PathBuf::from(path))),
        "file_osstring" => show(|| FileFormat::from_file(OsString::from(path))),
        "file_reader" => show(|| FileFormat::from_reader(File::open(path)?)),
        "file_buf" => show(|| FileFormat::from_reader(BufReader::new(File::open(path)?))),
        // The name of a file does not matter.
        "file_raw_name" => named(path, OsStr::from_bytes(b"-\xff\xc3\xe9"), false),
        "file_link" => named(path, OsStr::new(".link"), true),
        "file_extension" => {
            let all: Vec<String> = EXTENSIONS.iter().map(|x| named(path, OsStr::new(x), false)).collect();
            match all.iter().position(|x| *x != all[0]) {
                None => all[0].clone(),
                Some(k) => format!("{} as {}, {} as {}", all[0], EXTENSIONS[0], all[k], EXTENSIONS[k]),
            }
        }
        "file_relative" => match path.strip_prefix(std::env::current_dir().unwrap()) {
            Ok(rel) => show(|| FileFormat::from_file(Path::new(".").join(rel))),
            Err(_) => {
                let mut rel = PathBuf::new();
                for _ in std::env::current_dir().unwrap().components().skip(1) {
                    rel.push("..");
                }
                rel.extend(path.components().skip(1));
                show(|| FileFormat::from_file(rel))
            }
        },
        x => panic!("unknown entry point {x}"),
    }
}

const EXTENSIONS: [&str; 10] = [".txt", ".TXT", ".bin", ".zip", ".pdf", ".png", ".xml", ".exe", ".mp3", ".docx"];

/// Detects a file under another name.
fn named(path: &Path, suffix: &OsStr, soft: bool) -> String {
    let n = SEQ.fetch_add(1, Ordering::SeqCst);
    let mut name = path.as_os_str().to_os_string();
    name.push(format!("-{n}"));
    name.push(suffix);
    let other = PathBuf::from(name);
    let made = if soft { std::os::unix::fs::symlink(path, &other) } else { std::fs::hard_link(path, &other) };
    made.expect("scratch file");
    let got = show(|| FileFormat::from_file(&other));
    let _ = std::fs::remove_file(&other);
    got
}

static SEQ: AtomicU64 = AtomicU64::new(0);

/// Writes bytes to a new file in dir.
pub fn write(dir: &str, bytes: &[u8]) -> PathBuf {
    let n = SEQ.fetch_add(1, Ordering::SeqCst);
    let path = Path::new(dir).join(format!("case-{}-{n}", std::process::id()));
    std::fs::write(&path, bytes).expect("scratch file");
    path
}

/// Detects a long stream as a sparse file.
pub fn sparse(src: &Source, dir: &str) -> Vec<(String, String)> {
    use std::os::unix::fs::FileExt;
    let n = SEQ.fetch_add(1, Ordering::SeqCst);
    let path = Path::new(dir).join(format!("sparse-{}-{n}", std::process::id()));
    let file = File::create(&path).expect("scratch file");
    let mut out = vec![];
    // What the file system cannot hold is left out.
    if file.set_len(src.len).is_ok() {
        for g in src.segs.iter() {
            let mut b = vec![0; g.n as usize];
            src.fill(g.at, &mut b);
            if b.iter().any(|x| *x != 0) {
                file.write_all_at(&b, g.at).expect("scratch file");
            }
        }
        for how in FILES {
            out.push((how.to_string(), self::file(how, &path)));
        }
    }
    drop(file);
    let _ = std::fs::remove_file(&path);
    // The same in memory; pages of nothing but zeros take no room.
    if src.len <= 6 << 30 {
        let mut bytes = vec![0; src.len as usize];
        for g in src.segs.iter() {
            let (at, n) = (g.at as usize, g.n as usize);
            if g.b.iter().any(|x| *x != 0) {
                src.fill(g.at, &mut bytes[at..at + n]);
            }
        }
        for how in ["slice", "from", "cursor_slice", "buf_large"] {
            out.push((how.to_string(), memory(how, &bytes)));
        }
    }
    out
}

/// Detects through all entry points of a view: "bytes", "memory", "files" or a single one.
pub fn detect(view: &str, src: &Arc<Source>, dir: &str) -> Vec<(String, String)> {
    let bytes = src.bytes();
    let before = bytes.clone();
    let mut out = vec![];
    match view {
        "bytes" => out.push(("bytes".into(), memory("slice", &bytes))),
        "memory" => {
            for how in MEMORY {
                out.push((how.to_string(), memory(how, &bytes)));
            }
            let mut v = Virtual::new(src, Plan::default());
            out.push(("reader".into(), show(|| FileFormat::from_reader(&mut v))));
        }
        "files" => {
            let path = write(dir, &bytes);
            for how in FILES {
                out.push((how.to_string(), file(how, &path)));
            }
            if std::fs::read(&path).ok().as_deref() != Some(&bytes[..]) {
                out.push(("file content".into(), "the file was modified".into()));
            }
            let _ = std::fs::remove_file(&path);
        }
        how => out.push((how.to_string(), memory(how, &bytes))),
    }
    if bytes != before {
        out.push(("input".into(), "the input was modified".into()));
    }
    out
}


/// Files that cannot be opened or read: prints what, the result and how it must start.
pub fn open(dir: &str) {
    let dir = Path::new(dir);
    std::fs::write(dir.join("file"), b"%PDF-").unwrap();
    std::fs::create_dir(dir.join("dir")).unwrap();
    std::os::unix::fs::symlink("nowhere", dir.join("dangling")).unwrap();
    std::os::unix::fs::symlink("loop", dir.join("loop")).unwrap();
    std::os::unix::fs::symlink("file", dir.join("link")).unwrap();
    std::os::unix::fs::symlink("dir", dir.join("dirlink")).unwrap();
    let mut test = |what: &str, path: PathBuf, want: &str| {
        println!("{what} with from_file\t{}\t{want}", show(|| FileFormat::from_file(&path)));
        println!("{what} with from_file of a string\t{}\t{want}", show(|| FileFormat::from_file(path.to_str().unwrap())));
    };
    test("a missing file", dir.join("missing"), "Err(NotFound");
    test("a file in a missing directory", dir.join("no/file"), "Err(NotFound");
    test("a dangling link", dir.join("dangling"), "Err(NotFound");
    test("a link to itself", dir.join("loop"), "Err(");
    test("a directory", dir.join("dir"), "Err(IsADirectory");
    test("a link to a directory", dir.join("dirlink"), "Err(IsADirectory");
    test("a file used as a directory", dir.join("file/x"), "Err(NotADirectory");
    test("a path with a NUL", PathBuf::from("a\0b"), "Err(InvalidInput");
    test("an empty path", PathBuf::from(""), "Err(NotFound");
    test("a name that is too long", dir.join("x".repeat(300)), "Err(InvalidFilename");
    test("a link to a file", dir.join("link"), "PortableDocumentFormat");
}

/// Files whose metadata tell little: prints the name, the content in hex and what each way of detection finds.
/// (A file of the kernel has the length 0, whatever it holds; a device has none.)
pub fn special() {
    for name in SPECIAL {
        let Ok(a) = std::fs::read(name) else { continue };
        let found: Vec<String> = FILES[..7].iter().map(|how| file(how, Path::new(name))).collect();
        // Contents that change are of no use.
        match std::fs::read(name) {
            Ok(b) if a == b && a.len() < 70_000 => {
                let hex: String = a.iter().map(|b| format!("{b:02x}")).collect();
                println!("{name}\t{hex}\t{}", found.join("\t"));
            }
            _ => {}
        }
    }
}

const SPECIAL: [&str; 14] = [
    "/proc/version", "/proc/filesystems", "/proc/cmdline", "/proc/devices", "/proc/misc", "/proc/modules", "/proc/cpuinfo",
    "/proc/self/cmdline", "/proc/self/auxv", "/proc/self/maps", "/proc/self/limits", "/proc/sys/kernel/ostype",
    "/sys/kernel/mm/transparent_hugepage/enabled", "/dev/null",
];
