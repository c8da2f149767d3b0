//! The numbers that the source of the library mentions, as hints for the search: what depends on a certain number is
//! found sooner if that number is tried now and then. Numbers that the library mentions more often than the tree that
//! this was made with (hints.txt) come first. Nothing is decided by this.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(list) = std::fs::read_dir(dir) else { return };
    let mut list: Vec<_> = list.flatten().map(|e| e.path()).collect();
    list.sort();
    for p in list {
        if p.is_dir() {
            files(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

fn number(text: &str) -> Option<u64> {
    let t: String = text.chars().filter(|c| *c != '_').collect();
    let (digits, radix) = match t.get(..2) {
        Some("0x") => (&t[2..], 16),
        Some("0b") => (&t[2..], 2),
        Some("0o") => (&t[2..], 8),
        _ => (&t[..], 10),
    };
    let mut end = digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len());
    for suffix in ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64"] {
        if digits.ends_with(suffix) {
            end = end.min(digits.len() - suffix.len());
        }
    }
    u64::from_str_radix(&digits[..end], radix).ok()
}

fn numbers(text: &str, out: &mut BTreeMap<u64, u64>) {
    // tests have numbers of their own
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    for line in text.lines() {
        let line = line.split("//").next().unwrap_or("");
        let mut word = String::new();
        for c in line.chars().chain([' ']) {
            if c.is_ascii_alphanumeric() || c == '_' {
                word.push(c);
                continue;
            }
            if word.starts_with(|c: char| c.is_ascii_digit()) {
                if let Some(v) = number(&word) {
                    *out.entry(v).or_insert(0) += 1;
                }
            }
            word.clear();
        }
    }
}

fn main() {
    let here = PathBuf::from(std::env::var("CARGO_MANIFEST_DIR").unwrap());
    let manifest = std::fs::read_to_string(here.join("Cargo.toml")).unwrap();
    let line = manifest.lines().find(|l| l.starts_with("dash7 ")).expect("the library");
    let path = line.split("path = \"").nth(1).and_then(|l| l.split('"').next()).expect("a path");
    let src = here.join(path).join("src");
    println!("cargo:rerun-if-changed={}", src.display());
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=hints.txt");
    let mut list = vec![];
    files(&src, &mut list);
    let mut now = BTreeMap::new();
    for f in list {
        println!("cargo:rerun-if-changed={}", f.display());
        numbers(&std::fs::read_to_string(f).unwrap_or_default(), &mut now);
    }
    let mut before: BTreeMap<u64, u64> = BTreeMap::new();
    for l in std::fs::read_to_string(here.join("hints.txt")).unwrap_or_default().lines() {
        let mut words = l.split_whitespace().map(|w| w.parse().unwrap_or(0));
        if let (Some(v), Some(n)) = (words.next(), words.next()) {
            before.insert(v, n);
        }
    }
    let all: Vec<u64> = now.keys().copied().collect();
    let fresh: Vec<u64> = now.iter().filter(|(v, n)| before.get(v).copied().unwrap_or(0) < **n).map(|(v, _)| *v).collect();
    let out = PathBuf::from(std::env::var("OUT_DIR").unwrap());
    std::fs::write(
        out.join("hints.rs"),
        format!("pub const ALL: &[u64] = &{all:?};\npub const FRESH: &[u64] = &{fresh:?};\n"),
    )
    .unwrap();
    let text: String = now.iter().map(|(v, n)| format!("{v} {n}\n")).collect();
    std::fs::write(out.join("hints.txt"), text).unwrap();
}
