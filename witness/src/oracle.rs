//! What the published behaviour says about a content, written independently of the crate.

use crate::data::Data;
use crate::tables::*;

pub type Verdict = &'static str;

/// Which readers are enabled, by the feature's name.
#[derive(Clone, Copy)]
pub struct Features(pub u16);

pub const READERS: &[&str] = &["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip"];

impl Features {
    pub fn current() -> Self {
        let on = [
            cfg!(feature = "asf"), cfg!(feature = "cfb"), cfg!(feature = "ebml"), cfg!(feature = "exe"), cfg!(feature = "id3v2"), cfg!(feature = "mp4"),
            cfg!(feature = "pdf"), cfg!(feature = "rm"), cfg!(feature = "sqlite3"), cfg!(feature = "txt"), cfg!(feature = "xml"), cfg!(feature = "zip"),
        ];
        Features(on.iter().enumerate().map(|(i, &b)| (b as u16) << i).sum())
    }

    pub fn has(self, name: &str) -> bool {
        READERS.iter().position(|r| *r == name).map_or(false, |i| self.0 >> i & 1 == 1)
    }
}

pub const HEAD: u64 = 36_870;

pub fn signature(head: &[u8]) -> Option<Verdict> {
    for (f, alternatives) in SIGNATURES {
        for parts in *alternatives {
            if parts.iter().all(|(o, v)| head.len() >= o + v.len() && &head[*o..o + v.len()] == *v) {
                return Some(f);
            }
        }
    }
    None
}

/// The feature of the reader a signature's format has.
pub fn reader_of(f: &str) -> Option<&'static str> {
    Some(match f {
        "AdvancedSystemsFormat" => "asf",
        "CompoundFileBinary" => "cfb",
        "ExtensibleBinaryMetaLanguage" => "ebml",
        "MsDosExecutable" => "exe",
        "Id3v2" => "id3v2",
        "Mpeg4Part14" => "mp4",
        "PortableDocumentFormat" => "pdf",
        "Realmedia" => "rm",
        "Sqlite3" => "sqlite3",
        "ExtensibleMarkupLanguage" => "xml",
        "Zip" => "zip",
        _ => return None,
    })
}

pub fn generic(d: &Data, feats: Features) -> Verdict {
    if feats.has("txt") && txt(d) { "PlainText" } else { "ArbitraryBinaryData" }
}

pub fn detect(d: &Data, feats: Features) -> Verdict {
    if d.len == 0 {
        return "Empty";
    }
    match signature(&d.window(0, HEAD)) {
        None => generic(d, feats),
        Some(f) => match reader_of(f) {
            Some(r) if feats.has(r) => specialised(f, d).unwrap_or_else(|| generic(d, feats)),
            _ => f,
        },
    }
}

/// The documented verdicts for a content, the generic ones aside.
pub fn family(d: &Data, feats: Features) -> Vec<Verdict> {
    if d.len == 0 {
        return vec!["Empty"];
    }
    match signature(&d.window(0, HEAD)) {
        None => vec![],
        Some(f) => match reader_of(f) {
            Some(r) if feats.has(r) => FAMILIES.iter().find(|x| x.0 == f).unwrap().1.to_vec(),
            _ => vec![f],
        },
    }
}

pub fn specialised(f: &str, d: &Data) -> Option<Verdict> {
    match f {
        "AdvancedSystemsFormat" => asf(d),
        "CompoundFileBinary" => cfb(d),
        "ExtensibleBinaryMetaLanguage" => ebml(d),
        "MsDosExecutable" => exe(d),
        "Id3v2" => id3(d),
        "Mpeg4Part14" => mp4(d),
        "PortableDocumentFormat" => Some(if occurs_sparse(d, 5, 33_554_432, b"AIPrivateData") { "AdobeIllustratorArtwork" } else { "PortableDocumentFormat" }),
        "Realmedia" => rm(d),
        "Sqlite3" => Some(if occurs(&d.window(100, 32_768), b"com.bohemiancoding.sketch3") { "Sketch" } else { "Sqlite3" }),
        "ExtensibleMarkupLanguage" => Some(xml(&d.window(5, 8192))),
        "Zip" => zip(d),
        _ => None,
    }
}

pub fn occurs(w: &[u8], p: &[u8]) -> bool {
    w.windows(p.len()).any(|x| x == p)
}

fn occurs_sparse(d: &Data, from: u64, n: u64, p: &[u8]) -> bool {
    let (mut at, end) = (from, std::cmp::min(d.len, from + n));
    while at < end {
        let k = std::cmp::min(1 << 20, end - at);
        let w = d.window(at, k);
        let first = p[0];
        let mut i = 0;
        while i + p.len() <= w.len() {
            if w[i] == first && &w[i..i + p.len()] == p {
                return true;
            }
            i += 1;
        }
        if at + k == end {
            break;
        }
        at += k - (p.len() as u64 - 1);
    }
    false
}

fn int_le(b: &[u8]) -> i128 {
    b.iter().rev().fold(0, |v, x| v * 256 + *x as i128)
}

fn int_be(b: &[u8]) -> i128 {
    b.iter().fold(0, |v, x| v * 256 + *x as i128)
}

fn le(d: &Data, p: i128, n: i128) -> Option<i128> {
    d.bytes(p, n).map(|b| int_le(&b))
}

fn be(d: &Data, p: i128, n: i128) -> Option<i128> {
    d.bytes(p, n).map(|b| int_be(&b))
}

/// A position a stream can be moved to.
fn place(p: i128) -> Option<i128> {
    if p >= 0 && p < 1 << 64 { Some(p) } else { None }
}

/// Positions and sizes are unsigned 64-bit numbers, distances signed ones; the last step stops at the limit.
fn step(size: i128, less: i128) -> i128 {
    let s = size as u64 as i64 as i128 - less;
    s.clamp(i64::MIN as i128, i64::MAX as i128)
}

fn guid(b: &[u8]) -> String {
    let h = |v: Vec<u8>| crate::data::hex(&v);
    let rev = |a: usize, b2: usize| b[a..b2].iter().rev().cloned().collect::<Vec<u8>>();
    format!("{}-{}-{}-{}-{}", h(rev(0, 4)), h(rev(4, 6)), h(rev(6, 8)), h(b[8..10].to_vec()), h(b[10..16].to_vec()))
}

fn asf(d: &Data) -> Option<Verdict> {
    let count = le(d, 24, 4)?;
    let (mut p, mut audio, mut video) = (30, false, false);
    for _ in 0..count.min(256) {
        let head = d.bytes(p, 24)?;
        let size = int_le(&head[16..24]);
        match guid(&head[..16]).as_str() {
            "b7dc0791-a9b7-11cf-8ee6-00c00c205365" => {
                let kind = guid(&d.bytes(p + 24, 16)?);
                audio |= kind == "f8699e40-5b4d-11cf-a8fd-00805f5c442b";
                video |= kind == "bc19efc0-5b4d-11cf-a8fd-00805f5c442b";
                p = place(p + 40 + step(size, 40))?;
            }
            "d2d0a440-e307-11d2-97f0-00a0c95ea850" => {
                let n = le(d, p + 24, 2)?;
                let mut q = p + 26;
                for _ in 0..n.min(32) {
                    let len = le(d, q, 2)?;
                    let name = d.bytes(q + 2, len.min(64))?;
                    if name.starts_with(b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0") {
                        return Some("MicrosoftDigitalVideoRecording");
                    }
                    let v = q + 2 + len + 2;
                    q = v + 2 + le(d, v, 2)?;
                }
                p = (p + 26 + size).min((1 << 64) - 1) - 26;
            }
            _ => p = place(p + 24 + step(size, 24))?,
        }
    }
    Some(if video { "WindowsMediaVideo" } else if audio { "WindowsMediaAudio" } else { "AdvancedSystemsFormat" })
}

fn cfb(d: &Data) -> Option<Verdict> {
    let version = le(d, 26, 2)?;
    let sector = le(d, 48, 4)?;
    let entry = (if version == 3 { 512 } else { 4096 }) * (1 + sector);
    let class = guid(&d.bytes(entry + 80, 16)?);
    if let Some(x) = CLASSES.iter().find(|x| x.0 == class) {
        return Some(x.1);
    }
    if d.bytes(entry + 128, 64)?.starts_with(b"M\0a\0t\0O\0S\0T\0") {
        return Some("MicrosoftWorksWordProcessor");
    }
    if d.bytes(entry + 256, 64)?.starts_with(b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0") {
        return Some("MicrosoftWorks6Spreadsheet");
    }
    Some("CompoundFileBinary")
}

fn ebml(d: &Data) -> Option<Verdict> {
    let (mut p, mut audio, mut video, mut subtitle) = (0, false, false, false);
    for _ in 0..256 {
        if p >= d.len as i128 {
            break;
        }
        let k = d.bytes(p, 1)?[0].leading_zeros() as i128 + 1;
        if k > 4 {
            return None;
        }
        let id = be(d, p, k)?;
        let q = p + k;
        let m = d.bytes(q, 1)?[0].leading_zeros() as i128 + 1;
        if m > 8 {
            return None;
        }
        let size = be(d, q, m)? & ((1 << (7 * m)) - 1);
        let r = q + m;
        let next = r + size;
        p = match id {
            0x1a45_dfa3 | 0x1853_8067 | 0x1654_ae6b | 0xae | 0xe0 => r,
            0x4282 => {
                let t = d.bytes(r, size.min(8))?;
                if t.starts_with(b"webm") {
                    return Some("Webm");
                } else if !t.starts_with(b"matroska") {
                    return Some("ExtensibleBinaryMetaLanguage");
                }
                next
            }
            0x86 => {
                let c = d.bytes(r, size.min(64))?;
                audio |= c.starts_with(b"A_");
                video |= c.starts_with(b"V_");
                subtitle |= c.starts_with(b"S_");
                next
            }
            0x53b8 => {
                if d.bytes(r, size.min(8))?.iter().any(|b| *b != 0) {
                    return Some("Matroska3dVideo");
                }
                next
            }
            0x1f43_b675 => break,
            _ => next,
        };
    }
    Some(if video { "MatroskaVideo" } else if audio { "MatroskaAudio" } else if subtitle { "MatroskaSubtitles" } else { "ExtensibleBinaryMetaLanguage" })
}

fn exe(d: &Data) -> Option<Verdict> {
    let o = le(d, 60, 4)?;
    if o + 4 < d.len as i128 {
        let s = d.bytes(o, 4)?;
        if s == b"PE\0\0" {
            let flags = le(d, o + 22, 2)?;
            return Some(if flags & 0x2000 != 0 { "DynamicLinkLibrary" } else { "PortableExecutable" });
        }
        match &s[..2] {
            b"LE" | b"LX" => return Some("LinearExecutable"),
            b"NE" => return Some("NewExecutable"),
            _ => {}
        }
    }
    Some("MsDosExecutable")
}

fn id3(d: &Data) -> Option<Verdict> {
    let mut p = 0;
    for _ in 0..64 {
        let h = d.bytes(p, 10)?;
        if &h[..3] != b"ID3" {
            break;
        }
        let size = h[6..10].iter().fold(0, |v: i128, b| v * 128 + (*b % 128) as i128);
        p += 10 + size + if h[5] & 0x10 != 0 { 10 } else { 0 };
    }
    let b = d.bytes(p, 4)?;
    if b == b"fLaC" {
        return Some("FreeLosslessAudioCodec");
    }
    let mp3 = b[0] == 0xff && [0xe2, 0xe3, 0xf2, 0xf3, 0xfa, 0xfb].contains(&b[1]);
    Some(if mp3 { "Mpeg12AudioLayer3" } else { "Id3v2" })
}

fn mp4(d: &Data) -> Option<Verdict> {
    let (mut p, mut audio, mut video, mut subtitle) = (0, false, false, false);
    for _ in 0..256 {
        if p >= d.len as i128 {
            break;
        }
        let mut size = be(d, p, 4)?;
        let kind = d.bytes(p + 4, 4)?;
        let mut head = 8;
        if size == 1 {
            size = be(d, p + 8, 8)?;
            head = 16;
        }
        let q = p + head;
        p = match kind.as_slice() {
            b"moov" | b"trak" | b"mdia" => q,
            b"hdlr" => {
                match d.bytes(q + 8, 4)?.as_slice() {
                    b"vide" => video = true,
                    b"soun" => audio = true,
                    b"sbtl" | b"subt" | b"text" => subtitle = true,
                    _ => {}
                }
                place(q + 12 + step(size, head + 12))?
            }
            _ => place(q + step(size, head))?,
        };
    }
    Some(if video { "Mpeg4Part14Video" } else if audio { "Mpeg4Part14Audio" } else if subtitle { "Mpeg4Part14Subtitles" } else { "Mpeg4Part14" })
}

fn rm(d: &Data) -> Option<Verdict> {
    let n = be(d, 14, 4)? - 1;
    let (mut p, mut audio, mut video) = (18, false, false);
    for _ in 0..n.clamp(0, 64) {
        let h = d.bytes(p, 8)?;
        if &h[..4] == b"MDPR" {
            let n1 = d.bytes(p + 40, 1)?[0] as i128;
            let n2 = d.bytes(p + 41 + n1, 1)?[0] as i128;
            let mime = d.bytes(p + 42 + n1, n2)?;
            audio |= mime.starts_with(b"audio/");
            video |= mime.starts_with(b"video/");
        }
        p = place(p + int_be(&h[4..]))?;
    }
    Some(if video { "Realvideo" } else if audio { "Realaudio" } else { "Realmedia" })
}

fn xml(w: &[u8]) -> Verdict {
    for (all, markers, f) in DIALECTS {
        let hit = if *all { markers.iter().all(|m| occurs(w, m)) } else { markers.iter().any(|m| occurs(w, m)) };
        if hit {
            return f;
        }
    }
    "ExtensibleMarkupLanguage"
}

fn zip(d: &Data) -> Option<Verdict> {
    let len = d.len as i128;
    if len < 22 {
        return None;
    }
    let from = (len - 65_557).max(0);
    let w = d.bytes(from, len - from)?;
    let e = from + (0..w.len().checked_sub(3)?).rev().find(|&i| w[i..].starts_with(b"PK\x05\x06"))? as i128;
    let (count, mut p) = if e >= 20 && d.bytes(e - 20, 4)? == b"PK\x06\x07" {
        let q = (le(d, e - 12, 8)? + 32).min((1 << 64) - 1);
        (le(d, q, 8)?, le(d, q + 16, 8)?)
    } else {
        (le(d, e + 10, 2)?, le(d, e + 16, 4)?)
    };
    let mut f = "Zip";
    for _ in 0..count.min(1024) {
        let h = d.bytes(p + 20, 26)?;
        let (stored, size) = (int_le(&h[..4]), int_le(&h[4..8]));
        let (n, x, c) = (int_le(&h[8..10]), int_le(&h[10..12]), int_le(&h[12..14]));
        let local = int_le(&h[22..26]);
        let raw = d.bytes(p + 46, n)?;
        let name = String::from_utf8_lossy(&raw);
        if let Some(x) = NAMES.iter().find(|x| x.0 == name) {
            return Some(x.1);
        }
        if name == "META-INF/MANIFEST.MF" {
            f = "JavaArchive";
        } else if name == "mimetype" && stored == size {
            let q = local + 30 + le(d, local + 26, 2)? + le(d, local + 28, 2)?;
            let data = d.bytes(q, stored.min(256))?;
            let text = String::from_utf8_lossy(&data);
            return Some(TYPES.iter().find(|x| x.0 == text.trim()).map_or("Zip", |x| x.1));
        } else {
            for (starts, ends, has, without, v) in RULES {
                if starts.iter().all(|s| name.starts_with(s)) && (ends.is_empty() || ends.iter().any(|s| name.ends_with(s)))
                    && has.iter().all(|s| name.contains(s)) && !without.iter().any(|s| name.contains(s)) {
                    return Some(v);
                }
            }
        }
        p += 46 + n + x + c;
    }
    Some(f)
}

fn txt(d: &Data) -> bool {
    let mut b = d.window(0, 65_536);
    if b.len() == 65_536 {
        // a character of which the limit leaves only a beginning
        if let Err(e) = std::str::from_utf8(&b) {
            if e.error_len().is_none() {
                b.truncate(e.valid_up_to());
            }
        }
    }
    b.split(|c| *c == b'\n').take(16).all(|l| std::str::from_utf8(l).map_or(false, |s| s.chars().all(|c| !c.is_control() || c.is_whitespace())))
}
