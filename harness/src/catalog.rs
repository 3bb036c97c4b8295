//! Shows the metadata of the formats: of the constants, and of the values that detection returns.
use crate::stream::{Plan, Virtual};
use file_format::{FileFormat, Kind};
use std::io::BufRead;

const FORMATS: &[(&str, FileFormat)] = include!(env!("CONFORM_CATALOG"));

// The accessors work at compile time and agree with run time.
const CONST_ROWS: [(&str, Option<&str>, &str, &str, Kind); FORMATS.len()] = {
    let mut rows = [("", None, "", "", Kind::Other); FORMATS.len()];
    let mut i = 0;
    while i < FORMATS.len() {
        let f = &FORMATS[i].1;
        rows[i] = (f.name(), f.short_name(), f.media_type(), f.extension(), f.kind());
        i += 1;
    }
    rows
};

fn row(variant: &str, f: FileFormat, how: &str) {
    let mut d = format!("{f}");
    for t in [f.to_string(), format!("{f:}"), format!("{}", &f)] {
        if t != d {
            d = format!("{d} / {t}");
        }
    }
    println!(
        "{variant}\t{how}\t{}\t{}\t{}\t{}\t{:?}\t{d}",
        f.name(),
        f.short_name().unwrap_or(""),
        f.media_type(),
        f.extension(),
        f.kind()
    );
}

/// Prints the rows of the constants, then those of the formats detected in the cases.
pub fn print() {
    for (i, (variant, f)) in FORMATS.iter().enumerate() {
        row(variant, *f, "constant");
        let copy = *f;
        #[allow(clippy::clone_on_copy)]
        row(variant, copy.clone(), "copy");
        let c = CONST_ROWS[i];
        println!("{variant}\tconst\t{}\t{}\t{}\t{}\t{:?}\t{f}", c.0, c.1.unwrap_or(""), c.2, c.3, c.4);
    }
    println!("ArbitraryBinaryData\tdefault\t{0:?}\t\t\t\t\t{0}", FileFormat::default());
    for line in std::io::stdin().lock().lines() {
        let case = crate::parse(line.unwrap().trim_end_matches('\n'));
        let mut v = Virtual::new(&case.src, Plan::default());
        if let Ok(f) = FileFormat::from_reader(&mut v) {
            // Named by the catalogue's own value, not by the value's description of itself.
            match FORMATS.iter().find(|x| x.1 == f) {
                Some(x) => row(x.0, f, "detected"),
                None => println!("?{f:?}\tdetected\t\t\t\t\t\t"),
            }
        }
    }
}
