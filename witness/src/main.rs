//! Searches for (and replays) inputs on which the real code breaks a property.
//!
//!     witness search <property> --seconds N --seed S --shard k/n --out DIR --repo DIR [--literals FILE] [--trace FILE]
//!     witness replay <property> <file with the input's text>
//!     witness literals <repo>

mod crates;
mod data;
mod gen;
mod literals;
mod oracle;
mod rng;
mod stream;
mod tables;

use crates::*;
use data::Data;
use gen::{Dict, Gen};
use oracle::{Features, HEAD};
use rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicU64, Ordering};
use std::time::{Duration, Instant};
use stream::{Plan, Stream, BUDGET};

// ------------------------------------------------------------------ allocation

struct Alloc;

thread_local! {
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static WATCHED: Cell<bool> = const { Cell::new(false) };
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[global_allocator]
static ALLOC: Alloc = Alloc;

fn note(n: usize) {
    if WATCHED.with(|w| w.get()) {
        LARGEST.with(|m| m.set(m.get().max(n)));
        if n > 1 << 33 {
            // would bring the process down
            WATCHED.with(|w| w.set(false));
            report_current(&format!("asks for {} bytes of memory at once", n), "allocation");
            std::process::exit(0);
        }
    }
}

// ------------------------------------------------------------------ the evaluation under way, for the watchdog

static CURRENT: AtomicPtr<(String, Data, Plan)> = AtomicPtr::new(std::ptr::null_mut());
static SEARCHED: AtomicPtr<(&'static [u8], &'static [u8])> = AtomicPtr::new(std::ptr::null_mut());
static STOP: AtomicBool = AtomicBool::new(false);
static STOP_FILE: std::sync::OnceLock<PathBuf> = std::sync::OnceLock::new();
static TICK: AtomicU64 = AtomicU64::new(0);

fn report_current(what: &str, class: &str) {
    let p = CURRENT.load(Ordering::SeqCst);
    if !p.is_null() {
        // the evaluation that owns it is stuck or about to end the process
        let (prop, d, plan) = unsafe { &*p };
        Finding { class: class.into(), what: format!("identification {}", what), input: input_text(d, plan), expected: "a verdict".into(), got: what.into() }.print(prop);
    }
    let p = SEARCHED.load(Ordering::SeqCst);
    if !p.is_null() {
        let (d, p) = unsafe { *p };
        Finding { class: class.into(), what: format!("searching {}", what), input: find_text(d, p), expected: "an answer".into(), got: what.into() }.print("C09");
    }
}

fn watchdog() {
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            if STOP_FILE.get().map_or(false, |f| f.exists()) {
                STOP.store(true, Ordering::SeqCst);
            }
            let t = TICK.load(Ordering::SeqCst);
            if t != last || t % 2 == 0 {
                last = t;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(25) {
                report_current("does not terminate", "hang");
                std::process::exit(0);
            }
        }
    });
}

// ------------------------------------------------------------------ one evaluation

pub struct Outcome {
    /// Verdict, error (kind and message) or panic.
    pub result: Result<String, String>,
    pub panicked: bool,
    pub cost: u64,
    pub ops: u64,
    pub largest: usize,
    pub head_fault: Option<u64>,
    pub faulted: bool,
}

fn guarded<T>(f: impl FnOnce() -> std::io::Result<T>) -> (Result<T, String>, bool, usize) {
    LARGEST.with(|m| m.set(0));
    WATCHED.with(|w| w.set(true));
    TICK.fetch_add(1, Ordering::SeqCst);
    let r = catch_unwind(AssertUnwindSafe(f));
    TICK.fetch_add(1, Ordering::SeqCst);
    WATCHED.with(|w| w.set(false));
    let largest = LARGEST.with(|m| m.get());
    match r {
        Ok(Ok(v)) => (Ok(v), false, largest),
        Ok(Err(e)) => (Err(format!("{:?}: {}", e.kind(), e)), false, largest),
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            (Err(format!("panic: {}", m)), true, largest)
        }
    }
}

fn run(b: &Build, d: &Data, plan: Plan) -> Outcome {
    let mut s = Stream::new(d, plan);
    let (result, panicked, largest) = guarded(|| (b.read)(&mut s));
    Outcome { result, panicked, cost: s.cost(), ops: s.ops, largest, head_fault: s.head_fault, faulted: s.faulted }
}

pub struct Finding {
    pub class: String,
    pub what: String,
    pub input: String,
    pub expected: String,
    pub got: String,
}

fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

impl Finding {
    fn print(&self, prop: &str) {
        println!(
            "{{\"kind\":\"finding\",\"property\":{},\"class\":{},\"what\":{},\"input\":{},\"expected\":{},\"got\":{}}}",
            quote(prop), quote(&self.class), quote(&self.what), quote(&self.input), quote(&self.expected), quote(&self.got)
        );
    }
}

fn input_text(d: &Data, p: &Plan) -> String {
    format!("plan={},{},{},{},{},{} {}", p.chunk, p.interrupt, p.align, p.fault, p.lasting as u8 + 2 * p.seeks as u8, p.kind, d.text())
}

fn parse_input(t: &str) -> Option<(Data, Plan)> {
    let mut p = Plan::default();
    if let Some(w) = t.split_whitespace().find_map(|w| w.strip_prefix("plan=")) {
        let n: Vec<u64> = w.split(',').map(|x| x.parse().unwrap_or(0)).collect();
        if n.len() == 6 {
            p = Plan { chunk: n[0] as u8, interrupt: n[1] as u8, align: n[2] as u16, fault: n[3], lasting: n[4] & 1 != 0, seeks: n[4] & 2 != 0, kind: n[5] as u8 };
        }
    }
    Some((Data::parse(t)?, p))
}

fn show(r: &Result<String, String>) -> String {
    match r {
        Ok(v) => v.clone(),
        Err(e) => format!("error: {}", e),
    }
}

struct Ctx {
    prop: String,
    all: &'static Build,
    out: PathBuf,
    trace: Option<PathBuf>,
}

impl Ctx {
    fn finding(&self, class: &str, what: String, d: &Data, p: &Plan, expected: &str, got: &str) -> Option<Finding> {
        Some(Finding { class: class.into(), what, input: input_text(d, p), expected: expected.into(), got: got.into() })
    }

    /// The signature in the head, by the crate's own table when it can be asked, else by the published one.
    fn signature(&self, d: &Data) -> Option<String> {
        let head = d.window(0, HEAD);
        match catch_unwind(|| signature(&head)) {
            Ok(Some(f)) => f,
            _ => oracle::signature(&head).map(|s| s.to_string()),
        }
    }

    /// The generic verdict, by the crate's own text reader when it can be asked.
    fn generic(&self, d: &Data) -> String {
        let mut s = Stream::new(d, Plan::default());
        match guarded(|| specialised("PlainText", &mut s).transpose()).0 {
            Ok(Some(v)) => v,
            Ok(None) => oracle::generic(d, Features(0xfff)).to_string(),
            Err(_) => "ArbitraryBinaryData".to_string(),
        }
    }

    /// Evaluates the property on one content.
    fn check(&self, d: &Data, plan: Plan) -> Option<Finding> {
        let cell = Box::into_raw(Box::new((self.prop.clone(), d.clone(), plan)));
        CURRENT.store(cell, Ordering::SeqCst);
        if let Some(t) = &self.trace {
            let _ = std::fs::write(t, input_text(d, &plan));
        }
        let r = self.evaluate(d, plan);
        CURRENT.store(std::ptr::null_mut(), Ordering::SeqCst);
        drop(unsafe { Box::from_raw(cell) });
        r
    }

    fn evaluate(&self, d: &Data, plan: Plan) -> Option<Finding> {
        match self.prop.as_str() {
            "C01" => {
                let o = run(self.all, d, plan);
                if o.panicked {
                    return self.finding("panic", format!("identification panics: {}", show(&o.result)), d, &plan, "a verdict or an I/O error", &show(&o.result));
                }
                if plan == Plan::default() && d.len < 1 << 20 {
                    let v = d.all();
                    let (r, panicked, _) = guarded(|| Ok((self.all.bytes)(&v)));
                    if panicked {
                        return self.finding("panic", format!("from_bytes panics: {}", show(&r)), d, &plan, "a verdict", &show(&r));
                    }
                    let (r, panicked, _) = guarded(|| Ok((build("ff_none").bytes)(&v)));
                    if panicked {
                        return self.finding("panic", format!("from_bytes panics without reader features: {}", show(&r)), d, &plan, "a verdict", &show(&r));
                    }
                }
                None
            }
            "C02" => {
                let o = run(self.all, d, plan);
                if o.cost > BUDGET {
                    return self.finding("work", format!("identification uses more than {} bytes and operations of the stream", BUDGET), d, &plan, "at most 268435456", &o.cost.to_string());
                }
                // the text window (65,536 bytes) is read by doubling, whatever the content says; an entry
                // name of 65,535 bytes decodes to text of up to three times that, also grown by doubling
                if o.largest > 270_000 {
                    return self.finding("memory", format!("identification asks for {} bytes of memory at once", o.largest), d, &plan, "at most 65557 for a buffer sized by the content", &o.largest.to_string());
                }
                None
            }
            "C03" => {
                let feats = Features(0);
                let o = run(build("ff_none"), d, plan);
                let e = oracle::detect(d, feats);
                let g = show(&o.result);
                if g != e {
                    return self.finding("verdict", format!("with no reader feature, content is identified as {} instead of {}", g, e), d, &plan, e, &g);
                }
                None
            }
            "C04" => {
                if plan.fault != 0 {
                    return self.errors(d, plan).filter(|f| f.class == "verdict");
                }
                let o = run(self.all, d, Plan::default());
                let g = show(&o.result);
                if (g == "Empty") != (d.len == 0) {
                    return self.finding("empty", format!("content of {} bytes is {}", d.len, g), d, &plan, if d.len == 0 { "Empty" } else { "not Empty" }, &g);
                }
                if d.len == 0 {
                    return None;
                }
                let f = self.signature(d);
                let e = match &f {
                    None => self.generic(d),
                    Some(f) if oracle::reader_of(f).is_none() => f.clone(),
                    Some(f) => {
                        let mut s = Stream::new(d, Plan::default());
                        match guarded(|| specialised(f, &mut s).transpose()) {
                            (Ok(Some(v)), ..) => v,
                            (Err(_), false, _) => self.generic(d),
                            (Err(_), true, _) => return None,
                            // not available: the reader itself cannot be told from its use
                            (Ok(None), ..) => match oracle::specialised(f, d) {
                                Some(v) if v == f && g != f.as_str() && !oracle::family(d, Features(0xfff)).contains(&g.as_str()) => v.to_string(),
                                _ => return None,
                            },
                        }
                    }
                };
                if g != e {
                    return self.finding("verdict", format!("content whose signature is {} is identified as {} instead of {}", f.as_deref().unwrap_or("not recognised"), g, e), d, &plan, &e, &g);
                }
                None
            }
            "C05" => self.delivery(d, plan).or_else(|| self.history(d, plan)),
            "C06" => self.errors(d, plan),
            "C07" => {
                let o = run(self.all, d, plan);
                let g = match &o.result {
                    Ok(g) => g.clone(),
                    Err(_) => return None,
                };
                if g == "PlainText" || g == "ArbitraryBinaryData" || g == "Empty" && d.len == 0 {
                    return None;
                }
                let f = self.signature(d);
                let ok = match &f {
                    None => false,
                    Some(f) => match tables::FAMILIES.iter().find(|x| x.0 == f) {
                        Some(x) => x.1.contains(&g.as_str()),
                        None => g == *f,
                    },
                };
                if !ok {
                    let e = format!("a documented refinement of {}, or a generic verdict", f.as_deref().unwrap_or("nothing (no signature)"));
                    return self.finding("family", format!("content whose signature is {} is identified as {}", f.as_deref().unwrap_or("not recognised"), g), d, &plan, &e, &g);
                }
                None
            }
            "C08" => {
                let reference = run(self.all, d, Plan::default());
                let all = match &reference.result {
                    Ok(v) => v.clone(),
                    Err(_) => return None,
                };
                let own = show(&run(build("ff_none"), d, Plan::default()).result);
                for b in BUILDS {
                    let feats = Features(b.feats);
                    let recognised = own != "ArbitraryBinaryData" && own != "Empty";
                    let e = if own == "Empty" {
                        "Empty".to_string()
                    } else if recognised && !oracle::reader_of(&own).map_or(false, |r| feats.has(r)) {
                        own.clone()
                    } else if all == "PlainText" && !feats.has("txt") {
                        "ArbitraryBinaryData".to_string()
                    } else {
                        all.clone()
                    };
                    let g = show(&run(b, d, Plan::default()).result);
                    if g != e {
                        let on: Vec<&str> = oracle::READERS.iter().cloned().filter(|r| feats.has(r)).collect();
                        return self.finding("features", format!("with readers [{}] content is identified as {} instead of {} (all readers: {}, none: {})", on.join(" "), g, e, all, own), d, &plan, &e, &g);
                    }
                }
                None
            }
            "C20" => {
                if d.len == 0 || self.signature(d).is_some() {
                    return None;
                }
                if plan.fault != 0 {
                    return self.errors(d, plan).filter(|f| f.class == "verdict");
                }
                let o = run(self.all, d, plan);
                let (e, g) = (oracle::generic(d, Features(0xfff)), show(&o.result));
                if g != e {
                    return self.finding("verdict", format!("content without a signature is {} instead of {}", g, e), d, &plan, e, &g);
                }
                None
            }
            _ => {
                // the specialised readers
                let f = oracle::signature(&d.window(0, HEAD))?;
                if !subjects(&self.prop).contains(&f) || self.signature(d).as_deref() != Some(f) {
                    return None;
                }
                if plan.fault != 0 {
                    // a failure that is passed over is no reason for another verdict
                    return self.errors(d, plan).filter(|f| f.class == "verdict");
                }
                let e = match oracle::specialised(f, d) {
                    Some(v) => v.to_string(),
                    None => self.generic(d),
                };
                let o = run(self.all, d, plan);
                let g = show(&o.result);
                if g != e {
                    return self.finding("verdict", format!("{} content is identified as {} instead of {}", f, g, e), d, &plan, &e, &g);
                }
                None
            }
        }
    }

    fn delivery(&self, d: &Data, plan: Plan) -> Option<Finding> {
        let o = run(self.all, d, Plan::default());
        let a = show(&o.result);
        if plan != Plan::default() {
            let b = show(&run(self.all, d, plan).result);
            if a != b {
                return self.finding("delivery", format!("the verdict is {} when every read is filled and {} under delivery {:?}", a, b, plan), d, &plan, &a, &b);
            }
        }
        if d.len <= 40 << 20 {
            let v = d.all();
            let b = show(&guarded(|| Ok((self.all.bytes)(&v))).0);
            if a != b {
                return self.finding("bytes", format!("the verdict is {} from a stream and {} from bytes", a, b), d, &plan, &a, &b);
            }
            let b = show(&guarded(|| Ok((self.all.from)(&v))).0);
            if a != b {
                return self.finding("bytes", format!("the verdict is {} from a stream and {} by conversion from bytes", a, b), d, &plan, &a, &b);
            }
            if plan.chunk < 8 && (d.len <= 1 << 20 || hash(d) % 8 == 0) {
                let p = self.out.join(format!("content-{}", std::process::id()));
                if std::fs::write(&p, &v).is_ok() {
                    let limit = file_limit(&p);
                    let b = show(&guarded(|| (self.all.file)(&p)).0);
                    let _ = std::fs::remove_file(&p);
                    if a != b {
                        let mut s = Bounded(std::io::Cursor::new(&v), limit);
                        let c = show(&guarded(|| (self.all.read)(&mut s)).0);
                        let class = if b == c { "seek-beyond-file-limit" } else { "file" };
                        return self.finding(class, format!("the verdict is {} from a stream and {} from a file", a, b), d, &plan, &a, &b);
                    }
                }
            }
        }
        None
    }

    /// What was identified before, or is at the same time, makes no difference.
    fn history(&self, d: &Data, plan: Plan) -> Option<Finding> {
        let h = hash(d);
        if plan.fault != 0 || h % 4 != 0 || d.len > 1 << 40 {
            return None;
        }
        let head = HEAD as u64;
        let other = Data::dense(b"something else entirely".to_vec());
        run(self.all, &other, Plan::default());
        let want = show(&run(self.all, d, Plan::default()).result);
        let mut before: Vec<(&str, Data, Plan)> = vec![];
        let cut = |n: u64| {
            let mut e = d.clone();
            e.truncate(n);
            e
        };
        let blank = |n: u64| {
            let mut e = d.clone();
            let k = std::cmp::min(d.len - n, 1 << 16) as usize;
            e.put(n, &vec![0; k]);
            let k = std::cmp::min(d.len, 1 << 16) as usize;
            e.put(std::cmp::max(n, d.len - k as u64), &vec![0; std::cmp::min(k as u64, d.len - n) as usize]);
            e
        };
        if d.len > head {
            before.push(("its head alone", cut(head), Plan::default()));
            before.push(("its head with another rest", blank(head), Plan::default()));
        }
        for n in [16, 64, 512, 4096] {
            if d.len > n {
                before.push(("content that starts alike", cut(n), Plan::default()));
                before.push(("content of the same length that starts alike", blank(n), Plan::default()));
            }
        }
        before.push(("itself, with a failure after the head", d.clone(), Plan { fault: 3 + h / 4 % 6, lasting: h & 64 != 0, ..Plan::default() }));
        for (what, e, p) in before {
            run(self.all, &other, Plan::default());
            run(self.all, &e, p);
            let got = show(&run(self.all, d, Plan::default()).result);
            if got != want {
                return self.finding("history", format!("the verdict is {}, and {} when {} was identified before", want, got, what), d, &plan, &want, &got);
            }
        }
        if h % 256 == 0 && d.len <= 1 << 16 {
            let v = d.all();
            let mut others = vec![b"<?xml version=\"1.0\"?><gpx>".to_vec(), b"plain text".to_vec(), [&b"%PDF-1.5 AIPrivateData"[..], &[0; 3000]].concat(), v.iter().map(|b| b ^ 0x20).collect()];
            others.push(v.clone());
            let bytes = self.all.bytes;
            let wants: Vec<Result<String, String>> = others.iter().map(|v| guarded(|| Ok(bytes(v))).0).collect();
            let got = std::thread::scope(|s| {
                let ts: Vec<_> = others.iter().zip(&wants).map(|(v, w)| s.spawn(move || (0..400).map(|_| guarded(|| Ok(bytes(v))).0).find(|g| g != w))).collect();
                ts.into_iter().filter_map(|t| t.join().ok().flatten()).next()
            });
            if let Some(g) = got {
                return self.finding("threads", "a verdict differs when other content is identified at the same time".into(), d, &plan, &want, &show(&g));
            }
        }
        None
    }

    fn errors(&self, d: &Data, plan: Plan) -> Option<Finding> {
        let o = run(self.all, d, plan);
        if o.panicked {
            return None;
        }
        match o.head_fault {
            Some(k) => {
                let want = format!("{:?}: fault {}", stream::KINDS[plan.kind as usize % stream::KINDS.len()], k);
                if o.result.as_ref().err() != Some(&want) {
                    return self.finding("head", format!("reading the head failed, but the result is {}", show(&o.result)), d, &plan, &want, &show(&o.result));
                }
            }
            None => match &o.result {
                Err(e) => return self.finding("error", format!("the head was read, but the result is an error: {}", e), d, &plan, "a verdict", e),
                Ok(g) => {
                    if o.faulted && g != "ArbitraryBinaryData" {
                        let clean = run(self.all, d, Plan::default());
                        if clean.result.as_ref().ok() != Some(g) && (g != "PlainText" || self.generic(d) != "PlainText") {
                            return self.finding("verdict", format!("after a failure the verdict is {}", g), d, &plan, &format!("{} or the generic verdict", show(&clean.result)), g);
                        }
                    }
                }
            },
        }
        None
    }
}

/// The largest position the file system lets a file have.
fn file_limit(p: &Path) -> u64 {
    use std::io::{Seek, SeekFrom};
    let Ok(mut f) = std::fs::File::open(p) else { return i64::MAX as u64 };
    let (mut lo, mut hi) = (0u64, i64::MAX as u64);
    while lo < hi {
        let m = hi - (hi - lo) / 2;
        if f.seek(SeekFrom::Start(m)).is_ok() { lo = m } else { hi = m - 1 }
    }
    lo
}

/// A stream that, like a file, cannot be positioned beyond a limit.
struct Bounded<T>(T, u64);
impl<T: std::io::Read> std::io::Read for Bounded<T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl<T: std::io::Seek> std::io::Seek for Bounded<T> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let old = self.0.stream_position()?;
        let n = self.0.seek(p)?;
        if n > self.1 {
            self.0.seek(std::io::SeekFrom::Start(old))?;
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        Ok(n)
    }
}

fn subjects(prop: &str) -> &'static [&'static str] {
    match prop {
        "C10" => &["PortableDocumentFormat"],
        "C11" => &["ExtensibleMarkupLanguage", "Sqlite3"],
        "C12" => &["CompoundFileBinary"],
        "C13" => &["AdvancedSystemsFormat"],
        "C14" => &["ExtensibleBinaryMetaLanguage"],
        "C15" => &["MsDosExecutable"],
        "C16" => &["Id3v2"],
        "C17" => &["Mpeg4Part14"],
        "C18" => &["Realmedia"],
        "C19" => &["Zip"],
        _ => &[],
    }
}

fn kinds(prop: &str) -> Vec<&'static str> {
    match prop {
        "C03" => vec!["sig", "sig", "sig", "tiny", "fixture"],
        "C10" => vec!["pdf"],
        "C11" => vec!["xml", "xml", "sqlite3"],
        "C12" => vec!["cfb"],
        "C13" => vec!["asf"],
        "C14" => vec!["ebml"],
        "C15" => vec!["exe"],
        "C16" => vec!["id3v2"],
        "C17" => vec!["mp4"],
        "C18" => vec!["rm"],
        "C19" => vec!["zip"],
        "C20" => vec!["txt", "txt", "txt", "txt", "tiny", "fixture"],
        _ => gen::KINDS.to_vec(),
    }
}

fn rule(prop: &str) -> String {
    format!("contents built by structure ({}) with counts, sizes, offsets and lengths around every limit, then damaged; each evaluated on the real code", kinds(prop).join(", "))
}

fn plan(prop: &str, r: &mut Rng) -> Plan {
    let mut p = Plan::default();
    if matches!(prop, "C01" | "C05" | "C06" | "C07") || r.one_in(8) {
        if !r.one_in(3) {
            p.chunk = *r.pick(&[0u8, 1, 2, 3, 5, 7, 16, 200, 255, 255, 255]);
        }
        p.interrupt = *r.pick(&[0u8, 0, 1, 2, 3, 7]);
        p.align = *r.pick(&[0u16, 0, 0, 512, 4096, 8192, 1000]);
    }
    p
}

// ------------------------------------------------------------------ the search

struct Search {
    ctx: Ctx,
    deadline: Instant,
    evaluations: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    classes: HashSet<String>,
    /// The classes of the known findings.
    known: Vec<String>,
}

fn hash(d: &Data) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ d.len;
    for (p, v) in &d.segs {
        h = (h ^ p).wrapping_mul(0x100_0000_01b3);
        for c in v.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(x)).wrapping_mul(0x100_0000_01b3).rotate_left(23);
        }
    }
    h
}

impl Search {
    fn over(&self) -> bool {
        STOP.load(Ordering::SeqCst) || Instant::now() >= self.deadline || self.classes.iter().filter(|c| !self.known.contains(c)).count() >= 3
    }

    /// A few seconds more here, and the other searches end.
    fn finish(&mut self) {
        self.deadline = std::cmp::min(self.deadline, Instant::now() + Duration::from_secs(3));
        if let Some(f) = STOP_FILE.get() {
            let _ = std::fs::write(f, b"");
        }
    }

    fn one(&mut self, d: &Data, p: Plan) {
        self.evaluations += 1;
        if self.seen.len() < 2_000_000 {
            self.seen.insert(hash(d));
        }
        if self.samples.len() < 2 && self.evaluations % 37 == 1 {
            let t = input_text(d, &p);
            self.samples.push(t.chars().take(300).collect());
        }
        if let Some(f) = self.ctx.check(d, p) {
            if self.classes.insert(f.class.clone()) {
                let f = self.shrink(d, p, f);
                f.print(&self.ctx.prop);
                // one new finding decides; a few seconds more may show others
                if !self.known.contains(&f.class) {
                    self.finish();
                }
            }
        }
    }

    /// A smaller content with a finding of the same class.
    fn shrink(&self, d: &Data, p: Plan, first: Finding) -> Finding {
        let (mut d, mut p, mut best) = (d.clone(), p, first);
        let end = Instant::now() + Duration::from_secs(4);
        let same = |d: &Data, p: Plan, best: &Finding| self.ctx.check(d, p).filter(|f| f.class == best.class);
        if p.fault == 0 {
            if let Some(f) = same(&d, Plan::default(), &best) {
                p = Plan::default();
                best = f;
            }
        }
        let mut k = d.len / 2;
        while k > 0 && Instant::now() < end {
            if k < d.len {
                let mut e = d.clone();
                e.truncate(d.len - k);
                if let Some(f) = same(&e, p, &best) {
                    d = e;
                    best = f;
                    continue;
                }
            }
            k /= 2;
        }
        if d.segs.len() == 1 {
            let n = d.segs[0].1.len();
            let mut w = n / 2;
            while w > 0 && Instant::now() < end {
                let mut i = 0;
                while i < n && Instant::now() < end {
                    let j = (i + w).min(n);
                    if d.segs[0].1[i..j].iter().any(|b| *b != 0) {
                        let mut e = d.clone();
                        e.segs[0].1[i..j].fill(0);
                        if let Some(f) = same(&e, p, &best) {
                            d = e;
                            best = f;
                        }
                    }
                    i = j;
                }
                w /= 2;
            }
        }
        best
    }
}

fn tables_check(s: &mut Search) {
    let mut names: Vec<&str> = vec![];
    for (f, id, name, short, media, ext, kind) in tables::FORMATS {
        s.evaluations += 1;
        s.seen.insert(s.evaluations);
        let got = (f.name(), f.short_name(), f.media_type(), f.extension(), format!("{:?}", f.kind()), f.to_string());
        let want = (*name, *short, *media, *ext, kind.to_string(), name.to_string());
        let odd = [format!("{:#}", f), format!("{:+}", f), format!("{:1}", f)];
        let bad = if let Some(o) = odd.iter().find(|o| *o != name) { Some(("display", format!("{:?}", name), format!("{:?}", o))) }
            else if got != want { Some(("descriptor", format!("{:?}", want), format!("{:?}", got))) }
            else if f.extension().is_empty() || f.extension().contains('.') { Some(("extension", "non-empty, no dot".into(), f.extension().to_string())) }
            else if names.contains(&f.name()) { Some(("name", "unique".into(), f.name().to_string())) }
            else { None };
        names.push(f.name());
        if let Some((class, e, g)) = bad {
            Finding { class: class.into(), what: format!("descriptors of FileFormat::{}", id), input: format!("FileFormat::{}", id), expected: e, got: g }.print("C21");
            s.classes.insert("x".into());
            return;
        }
    }
    s.samples = vec!["FileFormat::Abiword: name, short_name, media_type, extension, kind, Display".into()];
}

fn find_text(d: &[u8], p: &[u8]) -> String {
    format!("data={} pattern={}", data::hex(d), data::hex(p))
}

fn find_check(d: &[u8], p: &[u8]) -> Option<Finding> {
    let n = d.len() as i64 - p.len() as i64;
    let (e, l) = if p.is_empty() {
        (Some(0), Some(d.len()))
    } else if n < 0 {
        (None, None)
    } else {
        ((0..=n as usize).find(|&i| d[i..].starts_with(p)), (0..=n as usize).rev().find(|&i| d[i..].starts_with(p)))
    };
    // only read by the watchdog while this evaluation is under way
    let mut cell: (&'static [u8], &'static [u8]) = unsafe { (std::mem::transmute::<&[u8], &'static [u8]>(d), std::mem::transmute::<&[u8], &'static [u8]>(p)) };
    SEARCHED.store(&mut cell, Ordering::SeqCst);
    TICK.fetch_add(1, Ordering::SeqCst);
    let g = catch_unwind(|| find(d, p).unwrap());
    TICK.fetch_add(1, Ordering::SeqCst);
    SEARCHED.store(std::ptr::null_mut(), Ordering::SeqCst);
    let want = (e, l, e.is_some());
    match g {
        Ok(g) if g == want => None,
        Ok(g) => Some(Finding { class: "find".into(), what: "(find, rfind, holds) of a pattern".into(), input: find_text(d, p), expected: format!("{:?}", want), got: format!("{:?}", g) }),
        Err(_) => Some(Finding { class: "panic".into(), what: "searching panics".into(), input: find_text(d, p), expected: format!("{:?}", want), got: "panic".into() }),
    }
}

fn search_find(s: &mut Search, r: &mut Rng, dict: &Dict, shard: (u64, u64)) {
    if matches!(catch_unwind(|| find(b"a", b"a")), Ok(None)) {
        return;
    }
    let mut one = |s: &mut Search, d: &[u8], p: &[u8]| {
        s.evaluations += 1;
        if s.seen.len() < 1_000_000 {
            let mut h = p.len() as u64 * 31 + d.len() as u64;
            for b in p.iter().chain(d) {
                h = (h ^ *b as u64).wrapping_mul(0x100_0000_01b3).rotate_left(11);
            }
            s.seen.insert(h);
        }
        if let Some(f) = find_check(d, p) {
            if s.classes.insert(f.class.clone()) {
                f.print("C09");
                s.finish();
            }
        }
    };
    // every data of up to 9 and pattern of up to 4 symbols out of 2, some of 3
    let digits = |mut x: u64, n: usize, k: u64| -> Vec<u8> {
        (0..n).map(|_| { let c = b'a' + (x % k) as u8; x /= k; c }).collect()
    };
    let mut c = 0;
    for (k, nd, np) in [(2u64, 9usize, 5usize), (3, 6, 3)] {
        for n in 0..=nd {
            for m in 0..=np {
                for x in 0..k.pow(n as u32) {
                    c += 1;
                    if c % shard.1 != shard.0 {
                        continue;
                    }
                    for y in 0..k.pow(m as u32) {
                        one(s, &digits(x, n, k), &digits(y, m, k));
                    }
                }
                if s.over() {
                    return;
                }
            }
        }
    }
    while !s.over() {
        for _ in 0..200 {
            let k = *r.pick(&[1u64, 2, 2, 3, 4, 256]);
            let m = *r.pick(&[1usize, 2, 3, 4, 5, 8, 13, 27, 100, 255, 256, 257, 300]);
            let hi = r.one_in(4);
            let sym = |r: &mut Rng| { let x = r.below(k) as u8; if hi { 255 - x } else { x } };
            let mut p: Vec<u8> = (0..m).map(|_| sym(r)).collect();
            if !dict.strings.is_empty() && r.one_in(4) {
                p = r.pick(&dict.strings).clone();
            }
            if r.one_in(3) {
                // repeated
                let q = 1 + r.below(3) as usize;
                for i in q..p.len() {
                    p[i] = p[i - q];
                }
            }
            let n = *r.pick(&[0usize, 1, 2, 5, 10, 30, 100, 300, 600, 40_000]);
            let n = if n == 40_000 && !r.one_in(20) { 50 } else { n };
            let mut d: Vec<u8> = (0..n).map(|_| sym(r)).collect();
            for _ in 0..r.below(4) {
                // whole or cut occurrences, also overlapping
                let a = if r.one_in(3) { r.below(p.len() as u64 + 1) as usize } else { 0 };
                let b = if r.one_in(3) { a + r.below((p.len() - a) as u64 + 1) as usize } else { p.len() };
                let at = match r.below(4) { 0 => d.len(), 1 => 0, _ => r.below(d.len() as u64 + 1) as usize };
                if r.one_in(2) {
                    let mut t = p[a..b].to_vec();
                    if !t.is_empty() && r.one_in(4) {
                        let k = r.below(t.len() as u64) as usize;
                        t[k] ^= 1;
                    }
                    d.splice(at..at, t);
                } else {
                    let e = (at + b - a).min(d.len());
                    d[at..e].copy_from_slice(&p[a..a + e - at]);
                }
            }
            one(s, &d, &p);
        }
    }
}

/// Every alternative of the published table, whole, cut by one byte and changed in every byte; every pair of
/// alternatives laid over each other.
fn search_signatures(s: &mut Search, shard: (u64, u64)) {
    let all: Vec<&[tables::Part]> = tables::SIGNATURES.iter().flat_map(|e| e.1.iter().cloned()).collect();
    let lay = |v: &mut Vec<u8>, a: &[tables::Part]| {
        let n = a.iter().map(|p| p.0 + p.1.len()).max().unwrap();
        if v.len() < n {
            v.resize(n, 0);
        }
        for (o, x) in a {
            v[*o..o + x.len()].copy_from_slice(x);
        }
    };
    for (i, a) in all.iter().enumerate() {
        if i as u64 % shard.1 != shard.0 {
            continue;
        }
        let mut v = vec![];
        lay(&mut v, a);
        s.one(&Data::dense(v.clone()), Plan::default());
        let mut w = v.clone();
        w.pop();
        s.one(&Data::dense(w), Plan::default());
        for (o, x) in a.iter() {
            for k in *o..o + x.len() {
                let mut w = v.clone();
                w[k] ^= 0x20;
                s.one(&Data::dense(w.clone()), Plan::default());
                w[k] ^= 0xa0;
                s.one(&Data::dense(w), Plan::default());
            }
            let mut w = v.clone();
            w.truncate(o + x.len());
            s.one(&Data::dense(w), Plan::default());
        }
        // behind something a lenient reader would skip
        for n in [1, 2, 3, 4, 8, 16, 64, 128, 256, 512, 1024, 4096, 32_768] {
            for fill in [&b"\0"[..], b" ", b"\n", b"\xEF\xBB\xBF"] {
                let mut w: Vec<u8> = fill.iter().cloned().cycle().take(n * if n < 4 { fill.len() } else { 1 }).collect();
                w.extend_from_slice(&v);
                s.one(&Data::dense(w), Plan::default());
            }
        }
        if s.over() {
            return;
        }
    }
    for (i, a) in all.iter().enumerate() {
        if i as u64 % shard.1 != shard.0 {
            continue;
        }
        for b in &all {
            let mut v = vec![];
            lay(&mut v, a);
            lay(&mut v, b);
            s.one(&Data::dense(v), Plan::default());
        }
        if s.over() {
            return;
        }
    }
}

/// Contents that need exact positions: every published entry of the readers' tables, alone.
fn search_tables(s: &mut Search, prop: &str) {
    let mut put = |head: &[u8], at: usize, marks: &[&[u8]]| {
        let mut v = head.to_vec();
        v.resize(at.max(head.len()), b' ');
        for m in marks {
            v.extend_from_slice(m);
            v.push(b' ');
        }
        s.one(&Data::dense(v), Plan::default());
    };
    if prop == "C11" {
        for (_, ms, _) in tables::DIALECTS {
            put(b"<?xml version=\"1.0\"?>", 30, ms);
            for m in *ms {
                put(b"<?xml version=\"1.0\"?>", 30, &[m]);
                for (_, ns, _) in tables::DIALECTS {
                    for n in *ns {
                        put(b"<?xml version=\"1.0\"?>", 30, &[m, n]);
                    }
                }
                let end = 5 + 8192 - m.len();
                for at in [end - 1, end, end + 1] {
                    put(b"<?xml version=\"1.0\"?>", at, &[m]);
                }
            }
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    if args.get(1).map(|s| s.as_str()) == Some("literals") {
        for (l, n) in literals::of_repo(Path::new(&args[2])) {
            println!("{} {}", l, n);
        }
        return;
    }
    let prop = args[2].clone();
    let out = PathBuf::from(opt("--out").unwrap_or_else(|| std::env::temp_dir().display().to_string()));
    let ctx = Ctx { prop: prop.clone(), all: build("ff_all"), out, trace: opt("--trace").map(PathBuf::from) };
    if args[1] == "replay" {
        let text = std::fs::read_to_string(&args[3]).expect("input");
        watchdog();
        let r = if let Some((d, p)) = text.trim().strip_prefix("data=").and_then(|t| t.split_once(" pattern=")) {
            find_check(&data::unhex(d).expect("data"), &data::unhex(p).expect("pattern"))
        } else {
            let (d, p) = parse_input(&text).expect("format");
            ctx.check(&d, p)
        };
        match r {
            Some(f) => {
                f.print(&prop);
                std::process::exit(1);
            }
            None => println!("the property holds on this input"),
        }
        return;
    }
    let seconds: f64 = opt("--seconds").and_then(|s| s.parse().ok()).unwrap_or(5.0);
    let seed: u64 = opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let shard = opt("--shard").and_then(|s| s.split_once('/').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()))).unwrap_or((0u64, 1u64));
    let repo = PathBuf::from(opt("--repo").unwrap_or_else(|| "/repo".into()));
    let dict = literals::dict(&repo, opt("--literals").map(PathBuf::from).as_deref());
    let fixtures = fixtures(&repo);
    let known = opt("--known").map(|k| k.split(',').map(String::from).collect()).unwrap_or_default();
    if let Some(f) = opt("--stop") {
        let _ = STOP_FILE.set(PathBuf::from(f));
    }
    if args[1] == "transcript" {
        transcript(&ctx, Path::new(&opt("--program").unwrap()), Path::new(&opt("--names").unwrap()), seconds, seed, &dict, &fixtures);
        return;
    }
    watchdog();
    let mut s = Search { ctx, deadline: Instant::now() + Duration::from_secs_f64(seconds), evaluations: 0, seen: HashSet::new(), samples: vec![], classes: HashSet::new(), known };
    let mut note = rule(&prop);
    match prop.as_str() {
        "C21" => {
            tables_check(&mut s);
            note = "every format of the published table: all descriptors and Display, compared".into();
        }
        "C09" => {
            let mut r = Rng::new(seed);
            search_find(&mut s, &mut r, &dict, shard);
            note = "find, rfind and holds on every data of at most 9 and pattern of at most 5 symbols out of 2 (6 and 3 out of 3), then on longer ones with whole, cut and overlapping occurrences".into();
        }
        _ => {
            if prop == "C03" || prop == "C04" {
                search_signatures(&mut s, shard);
            }
            search_tables(&mut s, &prop);
            if prop == "C02" {
                let mut g = Gen { r: Rng::new(seed), dict: &dict, fixtures: &fixtures };
                for (i, d) in g.long().into_iter().enumerate() {
                    if i as u64 % shard.1 == shard.0 && !s.over() {
                        s.one(&d, Plan::default());
                    }
                }
            }
            if shard.0 == 0 && prop == "C06" {
                files(&mut s);
            }
            if shard.0 == shard.1 - 1 && prop == "C05" {
                paths(&mut s, &dict);
            }
            let ks = kinds(&prop);
            let mut g = Gen { r: Rng::new(seed), dict: &dict, fixtures: &fixtures };
            while !s.over() {
                let k = *g.r.pick(&ks);
                // the expensive contents less often
                if k == "pdf" && prop != "C10" && !g.r.one_in(4) {
                    continue;
                }
                let d = if prop == "C02" && g.r.one_in(8) { g.endless(k) } else { g.make(k) };
                let mut p = plan(&prop, &mut g.r);
                if p.chunk > 0 && p.chunk < 255 && d.len > 400_000 {
                    p.chunk = 255;
                }
                if (prop == "C06" || prop == "C01") && !g.r.one_in(6) || (!subjects(&prop).is_empty() || prop == "C20" || prop == "C04") && d.len < 1 << 20 && g.r.one_in(16) {
                    // a failure at one of the operations
                    let mut d = d;
                    if d.len < HEAD && g.r.one_in(4) {
                        // with something to read where reading the head ended
                        let mut v = d.all();
                        let e = g.make(k);
                        let mut from = *g.r.pick(&[0u64, 5, 60, 100]);
                        v.resize(HEAD as usize, 0);
                        if k == "exe" {
                            // the offset of the extended header that follows it
                            let o = e.window(60, 4);
                            from = if o.len() == 4 { u32::from_le_bytes([o[0], o[1], o[2], o[3]]) as u64 } else { 0 };
                            v.extend_from_slice(&(HEAD as u32 + 4).to_le_bytes());
                        }
                        v.extend_from_slice(&e.window(from, 4096));
                        d = Data::dense(v);
                    }
                    let n = run(s.ctx.all, &d, p).ops;
                    for _ in 0..3 {
                        let mut q = p;
                        q.fault = match g.r.below(4) { 0 => n, 1 => 1 + g.r.below(4), _ => 1 + g.r.below(n) };
                        q.lasting = g.r.one_in(2);
                        if g.r.one_in(5) {
                            q.seeks = true;
                            q.fault = 1 + g.r.below(3);
                        }
                        q.kind = g.r.below(stream::KINDS.len() as u64) as u8;
                        s.one(&d, q);
                    }
                } else {
                    s.one(&d, p);
                }
            }
        }
    }
    let samples: Vec<String> = s.samples.iter().map(|x| quote(x)).collect();
    println!("{{\"kind\":\"stats\",\"evaluations\":{},\"distinct\":{},\"rule\":{},\"samples\":[{}]}}", s.evaluations, s.seen.len(), quote(&note), samples.join(","));
}

/// The verified text, compiled, against the crate: the same contents, the same verdicts.
fn transcript(ctx: &Ctx, program: &Path, names: &Path, seconds: f64, seed: u64, dict: &Dict, fixtures: &[Vec<u8>]) {
    use std::io::{BufRead, BufReader, Write};
    use std::process::{Command, Stdio};
    let names: Vec<String> = std::fs::read_to_string(names).unwrap().split_whitespace().map(String::from).collect();
    let mut c = Command::new(program).stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().expect("transcript");
    let (mut i, mut o) = (c.stdin.take().unwrap(), BufReader::new(c.stdout.take().unwrap()));
    let end = Instant::now() + Duration::from_secs_f64(seconds);
    let mut g = Gen { r: Rng::new(seed), dict, fixtures };
    let ks = kinds(&ctx.prop);
    let (mut n, mut seen, mut verdicts, mut bad) = (0u64, HashSet::new(), HashSet::new(), 0);
    while Instant::now() < end && bad < 3 {
        let k = *g.r.pick(&ks);
        if k == "pdf" && ctx.prop != "C10" && !g.r.one_in(8) {
            continue;
        }
        let d = g.make(k);
        if d.len > if k == "pdf" { 40 << 20 } else { 1 << 20 } {
            continue;
        }
        let v = d.all();
        let plan = if v.len() < 1 << 16 && g.r.one_in(4) { *g.r.pick(&[1u8, 2, 7, 100, 255]) } else { 0 };
        let mut h = vec![plan];
        h.extend_from_slice(&(v.len() as u32).to_le_bytes());
        let mut line = String::new();
        let sent = i.write_all(&h).and_then(|_| i.write_all(&v)).and_then(|_| i.flush()).and_then(|_| o.read_line(&mut line));
        let got = match (sent, line.trim().parse::<i64>()) {
            (Ok(_), Ok(k)) if k >= 0 => names.get(k as usize).cloned().unwrap_or_default(),
            (Ok(_), Ok(-1)) => "an error".to_string(),
            (Ok(_), Ok(_)) => "a panic".to_string(),
            (e, _) => format!("no answer ({:?})", e.err()),
        };
        let want = show(&run(ctx.all, &d, Plan::default()).result);
        n += 1;
        seen.insert(hash(&d));
        verdicts.insert(want.clone());
        if got != want {
            bad += 1;
            println!("{{\"kind\":\"difference\",\"what\":{}}}", quote(&format!("the verified text gives {}, the crate {} for {}", got, want, input_text(&d, &Plan::default()).chars().take(200).collect::<String>())));
            if got.starts_with("no answer") {
                break;
            }
        }
    }
    drop(i);
    let _ = c.kill();
    let _ = c.wait();
    println!("{{\"kind\":\"stats\",\"evaluations\":{},\"distinct\":{},\"verdicts\":{}}}", n, seen.len(), verdicts.len());
}

/// Files that cannot be opened or read.
fn files(s: &mut Search) {
    let dir = s.ctx.out.clone();
    let empty = dir.join("empty-file");
    let _ = std::fs::write(&empty, b"");
    let text = dir.join("text-file");
    let _ = std::fs::write(&text, b"hello");
    let link = dir.join("link");
    let dangling = dir.join("dangling-link");
    let odd = dir.join(odd_name());
    let _ = std::fs::remove_file(&link);
    let _ = std::fs::remove_file(&dangling);
    let _ = std::os::unix::fs::symlink(&text, &link);
    let _ = std::os::unix::fs::symlink("/no-such-target", &dangling);
    let _ = std::fs::write(&odd, b"hello");
    let mut list = vec![];
    for p in [link.clone(), odd.clone(), PathBuf::from("/dev/null"), PathBuf::from("/proc/version"), std::env::current_exe().unwrap_or_else(|_| text.clone())] {
        // what is there and readable at all
        if std::fs::File::open(&p).and_then(|mut f| std::io::Read::read(&mut f, &mut [0; 16])).is_ok() {
            list.push((p, false));
        }
    }
    for (p, fails) in list.into_iter().chain([(dangling.clone(), true), (dir.join("no-such-file"), true), (dir.clone(), true), (empty.join("below-a-file"), true), (PathBuf::from("no\0file"), true), (dir.join("x".repeat(5000)), true), (empty.clone(), false), (text.clone(), false)]) {
        s.evaluations += 1;
        let r = guarded(|| (s.ctx.all.file)(&p)).0;
        if r.is_err() != fails {
            Finding { class: "file".into(), what: format!("from_file of {}", p.display()), input: format!("{:?}", p.to_string_lossy()), expected: if fails { "an error".into() } else { "a verdict".into() }, got: show(&r) }.print("C06");
            s.classes.insert("file".into());
        }
    }
    for p in [&empty, &text, &link, &dangling, &odd] {
        let _ = std::fs::remove_file(p);
    }
}

/// A name that is not UTF-8.
fn odd_name() -> std::ffi::OsString {
    std::os::unix::ffi::OsStringExt::from_vec(b"odd \xFF\xFE name".to_vec())
}

/// Files of all kinds of names, and files that are not regular: the verdict is that of their content.
fn paths(s: &mut Search, dict: &gen::Dict) {
    let dir = s.ctx.out.join(format!("paths-{}", std::process::id()));
    if std::fs::create_dir_all(&dir).is_err() {
        return;
    }
    let contents: [&[u8]; 6] = [b"", b"hello\n", b"\0\x01\x02\x03", b"\x89PNG\r\n\x1a\n\0\0", b"<?xml version=\"1.0\"?><kml>", b"PK\x03\x04 no archive \x01"];
    let mut names: Vec<std::ffi::OsString> = vec![odd_name(), "no extension".into(), ".hidden".into(), "a.b.c".into(), "README".into(), "Makefile".into()];
    for (_, _, _, _, _, ext, _) in tables::FORMATS {
        names.push(format!("content.{}", ext).into());
        if ext.len() % 3 == 0 {
            names.push(format!("CONTENT.{}", ext.to_uppercase()).into());
        }
    }
    for w in &dict.strings {
        if let Ok(w) = std::str::from_utf8(w) {
            if w.len() < 60 && !w.is_empty() && !w.contains(['/', '\0']) {
                names.push(w.into());
                names.push(format!("content.{}", w.trim_start_matches('.')).into());
            }
        }
    }
    names.sort();
    names.dedup();
    let mut test = |s: &mut Search, p: &Path, v: &[u8], what: &str| {
        s.evaluations += 1;
        let a = show(&guarded(|| Ok((s.ctx.all.bytes)(v))).0);
        let b = show(&guarded(|| (s.ctx.all.file)(p)).0);
        if a != b && !s.classes.contains("path") {
            s.classes.insert("path".into());
            Finding { class: "path".into(), what: format!("the verdict is {} from bytes and {} from {}", a, b, what), input: format!("{} holding {:?}", what, String::from_utf8_lossy(&v[..v.len().min(200)])), expected: a, got: b }.print("C05");
        }
    };
    for n in &names {
        let p = dir.join(n);
        for v in contents {
            if std::fs::write(&p, v).is_ok() {
                test(s, &p, v, &format!("a file named {:?}", n));
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    let (file, link) = (dir.join("file"), dir.join("link"));
    if std::fs::write(&file, contents[3]).is_ok() && std::os::unix::fs::symlink(&file, &link).is_ok() {
        test(s, &link, contents[3], "a symbolic link");
    }
    for p in ["/proc/version", "/proc/sys/kernel/ostype", "/dev/null"] {
        if let Ok(v) = std::fs::read(p) {
            test(s, Path::new(p), &v, p);
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}

fn fixtures(repo: &Path) -> Vec<Vec<u8>> {
    let mut v = vec![];
    let mut dirs = vec![repo.join("fixtures")];
    while let Some(d) = dirs.pop() {
        if let Ok(l) = std::fs::read_dir(&d) {
            let mut l: Vec<_> = l.flatten().map(|e| e.path()).collect();
            l.sort();
            for p in l {
                if p.is_dir() {
                    dirs.push(p);
                } else if let Ok(b) = std::fs::read(&p) {
                    if b.len() < 300_000 {
                        v.push(b);
                    }
                }
            }
        }
    }
    v
}
