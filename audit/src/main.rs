//! Runs the contracts that `verus/prelude.rs` assumes of the standard library against the standard
//! library itself: each contract is written here once more as an executable statement and evaluated
//! on enumerated small values and random larger ones. Prints one line `name cases` per assumed
//! contract; a contract that does not hold prints `FAILED name ...` and the program exits with 1.
//!
//! This is a bounded test of the assumptions, not a proof.

use std::collections::BTreeMap;
use std::fs::File;
use std::io::{BufRead, BufReader, Cursor, Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n.max(1)
    }
    fn one_in(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    fn bytes(&mut self, n: usize, alphabet: u64) -> Vec<u8> {
        (0..n).map(|_| self.below(alphabet) as u8).collect()
    }
}

#[derive(Default)]
struct Log {
    n: BTreeMap<&'static str, u64>,
    bad: Vec<String>,
}
impl Log {
    fn check(&mut self, name: &'static str, ok: bool, what: impl Fn() -> String) {
        *self.n.entry(name).or_insert(0) += 1;
        if !ok && self.bad.len() < 20 {
            self.bad.push(format!("FAILED {name} {}", what()));
        }
    }
}

// ------------------------------------------------------------------ streams

/// A source with content that delivers short reads, interruptions and failures, and counts what it does.
struct Src {
    data: Vec<u8>,
    pos: u64,
    chunk: usize,
    interrupts: u32,
    every: u32,
    n: u32,
    fail_in: Option<u32>,
    cost: u64,
    broke: bool,
}
impl Src {
    fn fault(&mut self) -> Result<()> {
        if let Some(k) = self.fail_in {
            if k == 0 {
                self.broke = true;
                return Err(Error::new(ErrorKind::Other, "fault"));
            }
            self.fail_in = Some(k - 1);
        }
        Ok(())
    }
}
impl Read for Src {
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.n += 1;
        if self.every > 0 && self.n % self.every == 0 && self.interrupts > 0 {
            self.interrupts -= 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.fault()?;
        let at = (self.pos as usize).min(self.data.len());
        let k = b.len().min(self.data.len() - at).min(self.chunk.max(1));
        b[..k].copy_from_slice(&self.data[at..at + k]);
        self.pos += k as u64;
        // the contracts count the operations of the caller and the bytes moved; a stream that
        // delivers less than asked for makes the standard library call it again, at most once per byte
        self.cost += k as u64 + u64::from(self.chunk == usize::MAX);
        Ok(k)
    }
}
impl Seek for Src {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        self.cost += 1;
        self.fault()?;
        let t = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.data.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if !(0..=u64::MAX as i128).contains(&t) {
            return Err(Error::new(ErrorKind::InvalidInput, "range"));
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}

/// Cost so far and whether a fault was injected, where the stream can tell.
trait Probe {
    fn probe(&self) -> (Option<u64>, bool);
}
impl Probe for Src {
    fn probe(&self) -> (Option<u64>, bool) {
        (Some(self.cost), self.broke)
    }
}
impl<T> Probe for Cursor<T> {
    fn probe(&self) -> (Option<u64>, bool) {
        (None, false)
    }
}
impl Probe for File {
    fn probe(&self) -> (Option<u64>, bool) {
        (None, false)
    }
}
impl<T: Probe> Probe for BufReader<T> {
    fn probe(&self) -> (Option<u64>, bool) {
        self.get_ref().probe()
    }
}
impl<T: Probe + ?Sized> Probe for &mut T {
    fn probe(&self) -> (Option<u64>, bool) {
        (**self).probe()
    }
}

/// A sequence of operations; after each, what the contracts promise.
fn stream<S: Read + Seek + Probe>(mut s: S, d: &[u8], start: u64, r: &mut Rng, log: &mut Log, far: bool, buffered: bool) {
    let mut pos = start as i128;
    // the cost of the model, and what was done before
    let (mut cost, base) = (0u64, s.probe().0.unwrap_or(0));
    let ops = 1 + r.below(12);
    for _ in 0..ops {
        let rest = (d.len() as i128 - pos).max(0);
        let at = |p: i128, n: usize| d[p as usize..p as usize + n].to_vec();
        let name = match r.below(8) {
            0 if !buffered || r.one_in(2) => {
                let n = *[0usize, 1, 2, 7, 8192, 9000].get(r.below(6) as usize).unwrap();
                let mut b = vec![0xEEu8; n];
                match s.read(&mut b) {
                    Ok(k) => {
                        let ok = k <= n && (k == 0) == (n == 0 || rest == 0) && (k == 0 || k as i128 <= rest && b[..k] == at(pos, k));
                        log.check("read", ok, || format!("n={n} k={k} rest={rest}"));
                        pos += k as i128;
                        cost += 1 + k as u64;
                    }
                    Err(e) => {
                        let faulty = s.probe().1;
                        log.check("read", faulty || e.kind() == ErrorKind::Interrupted, || format!("error {e}"));
                        if e.kind() != ErrorKind::Interrupted {
                            return;
                        }
                    }
                }
                "read"
            }
            0 | 1 | 2 => {
                let n = *[0usize, 1, 2, 4, 16, 26, 600, 9000].get(r.below(8) as usize).unwrap();
                let mut b = vec![0xEEu8; n];
                let can = n == 0 || pos + n as i128 <= d.len() as i128;
                match s.read_exact(&mut b) {
                    Ok(()) => {
                        log.check("read_exact", can && (n == 0 || b == at(pos, n)), || format!("n={n} pos={pos}"));
                        pos += n as i128;
                        cost += 1 + n as u64;
                    }
                    Err(_) => {
                        let faulty = s.probe().1;
                        log.check("read_exact", faulty || !can, || format!("error, n={n} pos={pos} len={}", d.len()));
                        // the position is not determined any more
                        return;
                    }
                }
                "read_exact"
            }
            3 | 4 => {
                let big = [0i64, 1, 4, 100, 8192, 9000, -1, -4, -100, -9000, i64::MAX, i64::MIN, 1 << 40, -(1 << 40)];
                let n = big[r.below(if far { 14 } else { 10 }) as usize];
                let p = match r.below(3) {
                    0 => SeekFrom::Start(if far && r.one_in(4) { u64::MAX - r.below(3) } else { r.below(d.len() as u64 + 10) }),
                    1 => SeekFrom::End(n),
                    _ => SeekFrom::Current(n),
                };
                let t = match p {
                    SeekFrom::Start(n) => n as i128,
                    SeekFrom::End(n) => d.len() as i128 + n as i128,
                    SeekFrom::Current(n) => pos + n as i128,
                };
                let can = (0..=u64::MAX as i128).contains(&t);
                match s.seek(p) {
                    Ok(k) => {
                        log.check("seek", can && k as i128 == t, || format!("{p:?} from {pos} gives {k}"));
                        pos = t;
                    }
                    Err(_) => {
                        let faulty = s.probe().1;
                        log.check("seek", faulty || !can, || format!("{p:?} from {pos} of {} fails", d.len()));
                        return;
                    }
                }
                cost += 8193;
                "seek"
            }
            5 => {
                let n = [0i64, 1, 10, 5000, 9000, -1, -10, -9000][r.below(8) as usize];
                let can = pos + n as i128 >= 0 && pos + n as i128 <= u64::MAX as i128;
                match s.seek_relative(n) {
                    Ok(()) => {
                        log.check("seek_relative", can, || format!("{n} from {pos}"));
                        pos += n as i128;
                    }
                    Err(_) => {
                        let faulty = s.probe().1;
                        log.check("seek_relative", faulty || !can, || format!("{n} from {pos} fails"));
                        return;
                    }
                }
                cost += 8193;
                "seek_relative"
            }
            6 => {
                if r.one_in(2) {
                    match s.rewind() {
                        Ok(()) => {
                            pos = 0;
                            log.check("rewind", true, String::new);
                        }
                        Err(e) => {
                            let faulty = s.probe().1;
                            log.check("rewind", faulty, || e.to_string());
                            return;
                        }
                    }
                    cost += 8193;
                    "rewind"
                } else {
                    match s.stream_position() {
                        Ok(k) => log.check("stream_position", k as i128 == pos, || format!("{k} at {pos}")),
                        Err(e) => {
                            let faulty = s.probe().1;
                            log.check("stream_position", faulty, || e.to_string());
                            return;
                        }
                    }
                    cost += 1;
                    "stream_position"
                }
            }
            _ => {
                let n = [0u64, 1, 8, 100, 8192, 20000][r.below(6) as usize];
                let mut b = vec![1u8, 2, 3];
                let k = rest.min(n as i128) as usize;
                match s.by_ref().take(n).read_to_end(&mut b) {
                    Ok(g) => {
                        let want = if k > 0 { at(pos, k) } else { vec![] };
                        log.check("take_read_to_end", g == k && b[..3] == [1, 2, 3] && b[3..] == want, || format!("n={n} got {g} of {k}"));
                        pos += k as i128;
                    }
                    Err(e) => {
                        let faulty = s.probe().1;
                        log.check("take_read_to_end", faulty, || e.to_string());
                        return;
                    }
                }
                cost += 8193 + 2 * n;
                "take_read_to_end"
            }
        };
        if let (Some(c), false) = s.probe() {
            // what was read ahead and not yet discarded
            let slack = if buffered { 8193 * 2 } else { 0 };
            log.check(name, c - base <= cost + slack, || format!("cost {} where the contracts allow {}", c - base, cost));
        }
    }
}

fn streams(r: &mut Rng, log: &mut Log) {
    let dir = std::env::temp_dir().join(format!("audit-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let path = dir.join("f");
    for round in 0..60_000u64 {
        let n = [0usize, 1, 3, 30, 700, 8192, 8193, 20_000][r.below(8) as usize];
        let d = if n < 1000 { r.bytes(n, 256) } else { (0..n).map(|i| (i * 7 + i / 251) as u8).collect() };
        match r.below(6) {
            0 => stream(Cursor::new(&d[..]), &d, 0, r, log, true, false),
            1 => stream(BufReader::new(Cursor::new(d.clone())), &d, 0, r, log, true, true),
            2 if round % 8 == 0 => {
                File::create(&path).and_then(|mut f| f.write_all(&d)).expect("write");
                let f = File::open(&path);
                log.check("file_open__", f.is_ok(), || "an existing file".into());
                let mut f = f.expect("open");
                if r.one_in(2) {
                    stream(BufReader::new(&mut f), &d, 0, r, log, false, true)
                } else {
                    stream(f, &d, 0, r, log, false, false)
                }
                log.check("file_open__", File::open(dir.join("missing")).is_err(), || "a missing file".into());
            }
            k => {
                let (interrupts, every) = if r.one_in(2) { (r.below(5) as u32, 1 + r.below(4) as u32) } else { (0, 0) };
                let fail_in = if r.one_in(4) { Some(r.below(20) as u32) } else { None };
                let chunk = [1usize, 2, 5, 100, 8192, usize::MAX][r.below(6) as usize];
                let start = r.below(n as u64 + 3);
                let mut s = Src { data: d.clone(), pos: start, chunk, interrupts, every, n: 0, fail_in, cost: 0, broke: false };
                match k {
                    3 => stream(s, &d, start, r, log, true, false),
                    // a buffer around a stream that is somewhere already
                    4 => {
                        *log.n.entry("buffer_here").or_insert(0) += 1;
                        stream(BufReader::new(s), &d, start, r, log, true, true)
                    }
                    _ => {
                        *log.n.entry("buffered").or_insert(0) += 1;
                        stream(BufReader::new(&mut s), &d, start, r, log, true, true)
                    }
                }
            }
        }
    }
    *log.n.entry("cursor").or_insert(0) += 1;
    log.check("cursor", Cursor::new([1u8, 2]).position() == 0, String::new);
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    for k in [ErrorKind::Interrupted, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::Other, ErrorKind::NotFound] {
        log.check("kind", Error::from(k).kind() == k && Error::new(k, "x").kind() == k, || format!("{k:?}"));
        log.check("new_", Error::new(k, "x").kind() == k, || format!("{k:?}"));
    }
}

// ------------------------------------------------------------------ bytes

fn occurs_at(s: &[u8], p: &[u8], i: usize) -> bool {
    i + p.len() <= s.len() && (0..p.len()).all(|q| s[i + q] == p[q])
}

fn bytes(r: &mut Rng, log: &mut Log) {
    for _ in 0..60_000 {
        let (n, m, al) = (r.below(9) as usize, r.below(5) as usize, 1 + r.below(3));
        let (s, p) = (r.bytes(n, al), r.bytes(m, al));
        let same = s.len() == p.len() && occurs_at(&s, &p, 0);
        log.check("bytes_eq", (s == p) == same && (&s[..] == &p[..]) == same, || format!("{s:?} {p:?}"));
        log.check("bytes_starts_with", s.starts_with(&p) == occurs_at(&s, &p, 0), || format!("{s:?} {p:?}"));
        log.check("bytes_ends_with", s.ends_with(&p) == (m <= n && occurs_at(&s, &p, n.wrapping_sub(m))), || format!("{s:?} {p:?}"));
        let (a, b) = (r.below(n as u64 + 1) as usize, r.below(n as u64 + 1) as usize);
        let (a, b) = (a.min(b), a.max(b));
        log.check("slice_part_eq__", (s[a..b] == p[..]) == (b - a == m && occurs_at(&s, &p, a)), || format!("{s:?} {a}..{b} {p:?}"));
        if m > 0 {
            let first = (0..n + 1).find(|i| occurs_at(&s, &p, *i));
            log.check("windows_position__", s.windows(m).position(|w| w == p) == first, || format!("{s:?} {p:?}"));
            log.check("windows_position__", s.windows(m + 1).position(|w| w == p).is_none(), || format!("{s:?} {p:?}"));
        }
        let k = r.below(n as u64 + 1) as usize;
        let mut t = s.clone();
        t.rotate_right(k);
        log.check("slice_rotate_right__", t == [&s[n - k..], &s[..n - k]].concat(), || format!("{s:?} {k}"));
        let mut t = s.clone();
        t.rotate_left(k);
        log.check("slice_rotate_left__", t == [&s[k..], &s[..k]].concat(), || format!("{s:?} {k}"));
        let to = r.below((n - (b - a)) as u64 + 1) as usize;
        let mut t = s.clone();
        t.copy_within(a..b, to);
        log.check("slice_copy_within__", t == [&s[..to], &s[a..b], &s[to + (b - a)..]].concat(), || format!("{s:?} {a}..{b} {to}"));
        log.check("axiom_slice_len", s.len() <= isize::MAX as usize, String::new);
    }
    for n in [0usize, 1, 100, 65557] {
        log.check("vec_filled__", vec![7u8; n].iter().all(|b| *b == 7) && vec![7u8; n].len() == n, || n.to_string());
        log.check("vec_zeroed__", vec![0u8; n].iter().all(|b| *b == 0) && vec![0u8; n].len() == n, || n.to_string());
        log.check("vec_with_capacity__", Vec::<u8>::with_capacity(n).is_empty(), || n.to_string());
    }
    for b in 0..=255u8 {
        let d = b"0123456789abcdef";
        let s = format!("{:02x}", b);
        log.check("hex2__", s.as_bytes() == [d[(b >> 4) as usize], d[(b & 15) as usize]], || s.clone());
    }
}

// ------------------------------------------------------------------ text

fn text(r: &mut Rng, log: &mut Log) {
    let alphabet: Vec<char> = "aA/. \n\r\t\0é€😀\u{2003}\u{85}".chars().collect();
    for _ in 0..40_000 {
        let mut pick = |n: u64| -> String { (0..r.below(n)).map(|_| alphabet[r.below(alphabet.len() as u64) as usize]).collect() };
        let (s, t) = (pick(9), pick(4));
        let (a, b): (Vec<char>, Vec<char>) = (s.chars().collect(), t.chars().collect());
        let at = |i: usize| i + b.len() <= a.len() && a[i..i + b.len()] == b[..];
        log.check("str_eq", (s == t) == (a == b), || format!("{s:?} {t:?}"));
        log.check("str_starts_with", s.starts_with(&t[..]) == at(0), || format!("{s:?} {t:?}"));
        log.check("str_ends_with", s.ends_with(&t[..]) == (b.len() <= a.len() && at(a.len() - b.len())), || format!("{s:?} {t:?}"));
        log.check("str_contains", s.contains(&t[..]) == (0..=a.len()).any(at), || format!("{s:?} {t:?}"));
        let (x, y) = (a.iter().position(|c| !c.is_whitespace()), a.iter().rposition(|c| !c.is_whitespace()));
        let want: String = match (x, y) {
            (Some(x), Some(y)) => a[x..=y].iter().collect(),
            _ => String::new(),
        };
        log.check("str_trim", s.trim() == want, || format!("{s:?}"));
        let mut u = s.clone();
        u.push_str(&t);
        let cat: Vec<char> = a.iter().chain(b.iter()).cloned().collect();
        log.check("string_push__", u.chars().collect::<Vec<_>>() == cat, || format!("{s:?} {t:?}"));
        log.check("str_cat__", [s.clone(), t.clone()].into_iter().collect::<String>() == u, || format!("{s:?} {t:?}"));
        log.check("string_from__", String::from(&s[..]) == s, || s.clone());
        log.check("as_s", s.as_str().chars().eq(a.iter().cloned()), || s.clone());
        log.check("str_chars__", s.chars().collect::<Vec<_>>() == a, || s.clone());
        log.check("fmt_write__", format!("{s}{t}") == u, || s.clone());
    }
    log.check("string_new__", String::new().is_empty(), String::new);
    for c in (0..=0x10FFFFu32).filter_map(char::from_u32) {
        // the published classes: Cc for control; White_Space for whitespace
        let control = matches!(c as u32, 0..=0x1F | 0x7F..=0x9F);
        let white = matches!(c as u32, 9..=13 | 32 | 0x85 | 0xA0 | 0x1680 | 0x2000..=0x200A | 0x2028 | 0x2029 | 0x202F | 0x205F | 0x3000);
        log.check("char_is_control", c.is_control() == control, || format!("{c:?}"));
        log.check("char_is_whitespace", c.is_whitespace() == white, || format!("{c:?}"));
        log.check("char_is_ascii_control", c.is_ascii_control() == (c as u32 <= 31 || c as u32 == 127), || format!("{c:?}"));
        log.check("char_is_ascii_whitespace", c.is_ascii_whitespace() == matches!(c as u32, 32 | 9 | 10 | 12 | 13), || format!("{c:?}"));
    }
    // decoding, against a decoder written out
    for k in 0..400_000u64 {
        let b: Vec<u8> = if k % 3 == 0 {
            let s: String = (0..r.below(5)).map(|_| alphabet[r.below(alphabet.len() as u64) as usize]).collect();
            let mut v = s.into_bytes();
            if !v.is_empty() && r.one_in(2) {
                let n = r.below(v.len() as u64 + 1) as usize;
                v.truncate(n);
            }
            v
        } else {
            let n = r.below(6) as usize;
            (0..n).map(|_| [0x41, 0x0A, 0xC3, 0xA9, 0xE2, 0x82, 0xAC, 0xF0, 0x9F, 0x98, 0x80, 0xED, 0xA0, 0xC0, 0xF5, 0xE0, 0xF4, 0x90, 0xFF, r.below(256) as u8][r.below(20) as usize]).collect()
        };
        let (chars, bad, cut) = decode(&b);
        match std::str::from_utf8(&b) {
            Ok(s) => log.check("from_utf8__", bad.is_none() && s.chars().collect::<Vec<_>>() == chars, || format!("{b:?}")),
            Err(e) => {
                log.check("from_utf8__", bad.is_some(), || format!("{b:?}"));
                log.check("valid_up_to", Some(e.valid_up_to()) == bad, || format!("{b:?}"));
                // absent exactly when the content ends inside a character
                log.check("error_len", e.error_len().is_none() == cut && e.error_len().map_or(true, |n| (1..=3).contains(&n)), || format!("{b:?}"));
            }
        }
        if bad.is_none() {
            log.check("utf8_lossy__", String::from_utf8_lossy(&b).chars().collect::<Vec<_>>() == chars, || format!("{b:?}"));
        } else {
            log.check("utf8_lossy__", String::from_utf8_lossy(&b) == String::from_utf8_lossy(&b.clone()), || format!("{b:?}"));
        }
    }
    // lines: through the recursive definition of the contracts
    for _ in 0..60_000 {
        let n = r.below(9) as usize;
        let b: Vec<u8> = (0..n).map(|_| [b'a', b'\n', b'\r', 0xFF, 0xC3, 0xA9][r.below(6) as usize]).collect();
        let want = lines_of(&b);
        let got: Vec<Result<String>> = Cursor::new(&b).lines().collect();
        log.check("bytes_lines__", got.len() == want.len(), || format!("{b:?}"));
        log.check("count_", (&b[..]).lines().count() == want.len(), || format!("{b:?}"));
        for (g, w) in got.iter().zip(want.iter()) {
            let (chars, bad, _) = decode(w);
            log.check("line_", g.is_ok() == bad.is_none() && g.as_ref().map_or(true, |g| g.chars().eq(chars.iter().cloned())), || format!("{b:?}"));
        }
    }
}

fn lines_of(b: &[u8]) -> Vec<Vec<u8>> {
    if b.is_empty() {
        return vec![];
    }
    match b.iter().position(|c| *c == 10) {
        None => vec![b.to_vec()],
        Some(k) => {
            let mut l = b[..k].to_vec();
            if l.last() == Some(&13) {
                l.pop();
            }
            let mut v = vec![l];
            v.extend(lines_of(&b[k + 1..]));
            v
        }
    }
}

/// The characters before the first fault, where it is, and whether it is a character cut by the end.
fn decode(b: &[u8]) -> (Vec<char>, Option<usize>, bool) {
    let (mut out, mut i) = (vec![], 0);
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0..=0x7F => (1, 0, 0),
            0xC2..=0xDF => (2, 0x80, 0xBF),
            0xE0 => (3, 0xA0, 0xBF),
            0xED => (3, 0x80, 0x9F),
            0xE1..=0xEF => (3, 0x80, 0xBF),
            0xF0 => (4, 0x90, 0xBF),
            0xF1..=0xF3 => (4, 0x80, 0xBF),
            0xF4 => (4, 0x80, 0x8F),
            _ => return (out, Some(i), false),
        };
        let mut v = match n {
            1 => b[i] as u32,
            2 => b[i] as u32 & 0x1F,
            3 => b[i] as u32 & 0x0F,
            _ => b[i] as u32 & 0x07,
        };
        for k in 1..n {
            let Some(&c) = b.get(i + k) else { return (out, Some(i), true) };
            let (lo, hi) = if k == 1 { (lo, hi) } else { (0x80, 0xBF) };
            if c < lo || c > hi {
                return (out, Some(i), false);
            }
            v = v << 6 | (c as u32 & 0x3F);
        }
        out.push(char::from_u32(v).expect("scalar value"));
        i += n;
    }
    (out, None, false)
}

/// The operations of verus/num.rs that Verus is not asked to prove.
fn numbers(r: &mut Rng, log: &mut Log) {
    macro_rules! bytes_of {
        ($le:literal, $be:literal, $t:ty, $n:literal) => {
            for _ in 0..5000 {
                let mut b = [0u8; $n];
                for x in b.iter_mut() {
                    *x = *[0u64, 1, 127, 128, 255, r.below(256)].get(r.below(6) as usize).unwrap() as u8;
                }
                let le = (0..$n).fold(0u128, |a, i| a + (b[i] as u128) * 256u128.pow(i as u32));
                let be = (0..$n).fold(0u128, |a, i| a * 256 + b[i] as u128);
                log.check($le, <$t>::from_le_bytes(b) as u128 == le, || format!("{b:?}"));
                log.check($be, <$t>::from_be_bytes(b) as u128 == be, || format!("{b:?}"));
            }
        };
    }
    bytes_of!("u16_from_le_bytes", "u16_from_be_bytes", u16, 2);
    bytes_of!("u32_from_le_bytes", "u32_from_be_bytes", u32, 4);
    bytes_of!("u64_from_le_bytes", "u64_from_be_bytes", u64, 8);
    macro_rules! signed {
        ($t:ty) => {
            for _ in 0..5000 {
                let mut one = || {
                    let v = r.next() as $t;
                    *[0, 1, -1, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1, 2, -2, v, v >> (<$t>::BITS / 2)].get(r.below(11) as usize).unwrap()
                };
                let (a, b) = (one(), one());
                let sat = |x: i128| x.clamp(<$t>::MIN as i128, <$t>::MAX as i128);
                log.check("saturating_add_", a.saturating_add(b) as i128 == sat(a as i128 + b as i128), || format!("{a} {b}"));
                log.check("saturating_sub_", a.saturating_sub(b) as i128 == sat(a as i128 - b as i128), || format!("{a} {b}"));
                log.check("saturating_mul_", a.saturating_mul(b) as i128 == sat(a as i128 * b as i128), || format!("{a} {b}"));
                if a >= 0 {
                    // the number of bits above the highest one
                    let want = (0..<$t>::BITS).filter(|k| (a as i128) < 1i128 << (<$t>::BITS - 1 - k)).count() as u32;
                    log.check("leading_zeros_", a.leading_zeros() == want, || format!("{a}"));
                }
            }
        };
    }
    signed!(i8);
    signed!(i16);
    signed!(i32);
    signed!(i64);
    signed!(isize);
    for _ in 0..5000 {
        let a = r.next() >> r.below(64);
        let a = a as usize;
        let want = (0..64).filter(|k| (a as u128) < 1u128 << (63 - k)).count() as u32;
        log.check("leading_zeros_", a.leading_zeros() == want, || format!("{a}"));
    }
}

fn main() {
    let seed = std::env::args().nth(1).and_then(|s| s.parse().ok()).unwrap_or(1);
    let (mut r, mut log) = (Rng(seed), Log::default());
    streams(&mut r, &mut log);
    bytes(&mut r, &mut log);
    text(&mut r, &mut log);
    numbers(&mut r, &mut log);
    for (n, k) in &log.n {
        println!("{n} {k}");
    }
    for b in &log.bad {
        println!("{b}");
    }
    std::process::exit(if log.bad.is_empty() { 0 } else { 1 });
}
