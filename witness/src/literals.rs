//! The literals of the source that the published code does not have, or has less often: values worth trying.

use crate::gen::Dict;
use std::collections::BTreeMap;
use std::path::Path;

/// `s<hex>` for strings and byte strings, `n<number>` for numbers and characters, with how often each occurs.
pub fn of_repo(repo: &Path) -> BTreeMap<String, usize> {
    let mut out = BTreeMap::new();
    for f in ["src/lib.rs", "src/readers.rs", "src/macros.rs", "src/signatures.rs"] {
        if let Ok(t) = std::fs::read(repo.join(f)) {
            scan(&t, &mut out);
        }
    }
    if let Ok(l) = std::fs::read_dir(repo.join("src")) {
        for p in l.flatten().map(|e| e.path()) {
            let n = p.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
            if n.ends_with(".rs") && !["lib.rs", "readers.rs", "macros.rs", "signatures.rs", "formats.rs"].contains(&n.as_str()) {
                if let Ok(t) = std::fs::read(p) {
                    scan(&t, &mut out);
                }
            }
        }
    }
    out
}

fn scan(t: &[u8], out: &mut BTreeMap<String, usize>) {
    let mut i = 0;
    let (mut last, mut end): (Option<u64>, usize) = (None, 0);
    while i < t.len() {
        let c = t[i];
        if c == b'/' && t.get(i + 1) == Some(&b'/') {
            while i < t.len() && t[i] != b'\n' {
                i += 1;
            }
        } else if c == b'"' {
            let mut v = vec![];
            i += 1;
            while i < t.len() && t[i] != b'"' {
                let (b, n) = escape(&t[i..]);
                v.extend(b);
                i += n;
            }
            i += 1;
            if !v.is_empty() && v.len() <= 64 {
                *out.entry(format!("s{}", crate::data::hex(&v))).or_insert(0) += 1;
            }
        } else if c == b'\'' {
            let (b, n) = escape(&t[i + 1..]);
            if t.get(i + 1 + n) == Some(&b'\'') && b.len() == 1 {
                *out.entry(format!("n{}", b[0])).or_insert(0) += 1;
                i += n + 2;
            } else {
                i += 1;
            }
        } else if c.is_ascii_digit() && (i == 0 || !(t[i - 1].is_ascii_alphanumeric() || t[i - 1] == b'_')) {
            let mut j = i;
            while j < t.len() && (t[j].is_ascii_alphanumeric() || t[j] == b'_') {
                j += 1;
            }
            let s: String = String::from_utf8_lossy(&t[i..j]).replace('_', "");
            let n = if let Some(h) = s.strip_prefix("0x") {
                u64::from_str_radix(h.trim_end_matches("usize").trim_end_matches("u64").trim_end_matches("u32").trim_end_matches("u16"), 16).ok()
            } else {
                let d: String = s.chars().take_while(|c| c.is_ascii_digit()).collect();
                d.parse().ok()
            };
            if let Some(n) = n {
                *out.entry(format!("n{}", n)).or_insert(0) += 1;
                // a product or shift of two numbers
                if let Some(a) = last {
                    let between: Vec<u8> = t[end..i].iter().cloned().filter(|c| *c != b' ').collect();
                    let v: Option<u64> = match op_of(&between) {
                        Some(b'<') if n < 64 => Some(a << n),
                        Some(b'*') => a.checked_mul(n),
                        _ => None,
                    };
                    if let Some(v) = v {
                        *out.entry(format!("n{}", v)).or_insert(0) += 1;
                    }
                }
                last = Some(n);
                end = j;
            }
            i = j;
        } else {
            i += 1;
        }
    }
}

fn op_of(t: &[u8]) -> Option<u8> {
    match t {
        b"<<" => Some(b'<'),
        b"*" => Some(b'*'),
        _ => None,
    }
}

fn escape(t: &[u8]) -> (Vec<u8>, usize) {
    if t.is_empty() {
        return (vec![], 1);
    }
    if t[0] != b'\\' || t.len() < 2 {
        return (vec![t[0]], 1);
    }
    match t[1] {
        b'n' => (vec![10], 2),
        b'r' => (vec![13], 2),
        b't' => (vec![9], 2),
        b'0' => (vec![0], 2),
        b'x' if t.len() >= 4 => (std::str::from_utf8(&t[2..4]).ok().and_then(|s| u8::from_str_radix(s, 16).ok()).into_iter().collect(), 4),
        b'\n' => (vec![], 2),
        c => (vec![c], 2),
    }
}

pub fn dict(repo: &Path, known: Option<&Path>) -> Dict {
    let old: BTreeMap<String, usize> = known
        .and_then(|p| std::fs::read_to_string(p).ok())
        .map(|t| t.lines().filter_map(|l| l.split_once(' ')).filter_map(|(l, n)| Some((l.to_string(), n.parse().ok()?))).collect())
        .unwrap_or_default();
    let mut d = Dict::default();
    if old.is_empty() {
        return d;
    }
    for (l, n) in of_repo(repo) {
        if old.get(&l).is_some_and(|o| *o >= n) {
            continue;
        }
        if let Some(h) = l.strip_prefix('s') {
            let b: Vec<u8> = (0..h.len() / 2).filter_map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect();
            if let Some(g) = crate::gen::guid_of(&b) {
                d.guids.push(g);
            }
            d.strings.push(b);
        } else if let Some(n) = l.strip_prefix('n').and_then(|n| n.parse().ok()) {
            d.numbers.push(n);
        }
    }
    d
}
