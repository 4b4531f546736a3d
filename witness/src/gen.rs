//! Contents that reach into every part of the readers: built by structure, with counts, sizes, positions
//! and lengths around every limit the format or the reader has, then damaged.

use crate::data::Data;
use crate::rng::Rng;
use crate::tables::*;

/// Bytes being built, with the positions of the numbers in them.
#[derive(Default)]
pub struct B {
    pub v: Vec<u8>,
    /// (position, width, little-endian)
    pub f: Vec<(usize, usize, bool)>,
}

impl B {
    fn raw(&mut self, b: &[u8]) -> &mut Self {
        self.v.extend_from_slice(b);
        self
    }
    fn le(&mut self, x: u64, w: usize) -> &mut Self {
        self.f.push((self.v.len(), w, true));
        self.v.extend_from_slice(&x.to_le_bytes()[..w]);
        self
    }
    fn be(&mut self, x: u64, w: usize) -> &mut Self {
        self.f.push((self.v.len(), w, false));
        self.v.extend_from_slice(&x.to_be_bytes()[8 - w..]);
        self
    }
    fn pad_to(&mut self, n: usize) -> &mut Self {
        if self.v.len() < n {
            self.v.resize(n, 0);
        }
        self
    }
    fn set(&mut self, p: usize, w: usize, little: bool, x: u64) {
        let b = if little { x.to_le_bytes()[..w].to_vec() } else { x.to_be_bytes()[8 - w..].to_vec() };
        if p + w <= self.v.len() {
            self.v[p..p + w].copy_from_slice(&b);
        }
    }
}

/// Literals of the current source that the published code does not have.
#[derive(Default)]
pub struct Dict {
    pub strings: Vec<Vec<u8>>,
    /// Those that are written as GUIDs, as bytes.
    pub guids: Vec<Vec<u8>>,
    pub numbers: Vec<u64>,
}

pub struct Gen<'a> {
    pub r: Rng,
    pub dict: &'a Dict,
    pub fixtures: &'a [Vec<u8>],
}

pub const KINDS: &[&str] = &["asf", "cfb", "ebml", "exe", "id3v2", "mp4", "pdf", "rm", "sqlite3", "txt", "xml", "zip", "sig", "fixture", "tiny"];

fn guid_bytes(s: &str) -> Vec<u8> {
    let h: Vec<u8> = s.bytes().filter(|b| *b != b'-').collect();
    let b: Vec<u8> = (0..16).map(|i| u8::from_str_radix(std::str::from_utf8(&h[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect();
    [3, 2, 1, 0, 5, 4, 7, 6, 8, 9, 10, 11, 12, 13, 14, 15].iter().map(|&i: &usize| b[i]).collect()
}

pub fn guid_of(s: &[u8]) -> Option<Vec<u8>> {
    let t = std::str::from_utf8(s).ok()?;
    let ok = t.len() == 36 && t.char_indices().all(|(i, c)| if matches!(i, 8 | 13 | 18 | 23) { c == '-' } else { c.is_ascii_hexdigit() });
    ok.then(|| guid_bytes(t))
}

impl Gen<'_> {
    pub fn make(&mut self, kind: &str) -> Data {
        match kind {
            "asf" => self.asf(),
            "cfb" => self.cfb(),
            "ebml" => self.ebml(),
            "exe" => self.exe(),
            "id3v2" => self.id3(),
            "mp4" => self.mp4(),
            "pdf" => self.pdf(),
            "rm" => self.rm(),
            "sqlite3" => self.sqlite(),
            "txt" => self.txt(),
            "xml" => self.xml(),
            "zip" => self.zip(),
            "sig" => self.sig(),
            "fixture" => self.fixture(),
            _ => self.tiny(),
        }
    }

    fn interesting(&mut self, w: usize, old: u64, pos: u64, len: u64) -> u64 {
        let max = if w == 8 { u64::MAX } else { (1 << (8 * w)) - 1 };
        let half = max / 2;
        if !self.dict.numbers.is_empty() && self.r.one_in(4) {
            let n = *self.r.pick(&self.dict.numbers);
            return n.wrapping_add(self.r.range(-1, 1) as u64) & max;
        }
        let x = match self.r.below(16) {
            0 => 0,
            1 => 1,
            2 => max,
            3 => max - self.r.below(64),
            4 => half.wrapping_add(self.r.range(-2, 2) as u64),
            5 | 6 => old.wrapping_add(self.r.range(-3, 3) as u64),
            7 => old.wrapping_add(self.r.range(-40, 40) as u64),
            8 => len.wrapping_sub(pos).wrapping_add(self.r.range(-9, 9) as u64),
            9 => len.wrapping_add(self.r.range(-30, 9) as u64),
            10 => (1u64 << self.r.below(64)).wrapping_add(self.r.range(-1, 1) as u64),
            11 => half.wrapping_sub(pos).wrapping_add(self.r.range(-30, 30) as u64),
            12 => self.r.below(300),
            13 => [8u64, 15, 16, 23, 24, 32, 39, 40, 63, 64, 65, 127, 128, 255, 256, 257, 1023, 1024, 8191, 8192, 32767, 32768, 36869, 36870, 36871, 65535, 65536][self.r.below(27) as usize],
            14 => old.rotate_left(8),
            _ => self.r.next(),
        };
        x & max
    }

    /// Damages a content: a number changed, cut at a number, bytes changed, bytes added.
    fn damage(&mut self, mut b: B) -> Data {
        let n = if self.r.one_in(2) { 0 } else { 1 + self.r.below(2) };
        let mut cut = None;
        for _ in 0..n {
            let len = b.v.len();
            match self.r.below(8) {
                0..=3 if !b.f.is_empty() => {
                    let (p, w, l) = *self.r.pick(&b.f);
                    if p + w <= len {
                        let s = &b.v[p..p + w];
                        let old = if l { s.iter().rev().fold(0, |v, x| v << 8 | *x as u64) } else { s.iter().fold(0, |v, x| v << 8 | *x as u64) };
                        let x = self.interesting(w, old, p as u64, len as u64);
                        b.set(p, w, l, x);
                    }
                }
                4 if !b.f.is_empty() => {
                    let (p, w, _) = *self.r.pick(&b.f);
                    let k = p as i64 + self.r.range(-2, w as i64 + 5);
                    cut = Some(k.max(1) as u64);
                }
                5 => {
                    let k = self.r.below(12);
                    cut = Some((len as u64).saturating_sub(k).max(1));
                }
                6 if len > 0 => {
                    // past the signature, mostly
                    let p = if !b.f.is_empty() && self.r.one_in(2) { (b.f[self.r.below(b.f.len() as u64) as usize].0 as i64 + self.r.range(-20, 20)).clamp(0, len as i64 - 1) as usize } else { self.r.below(len as u64) as usize };
                    if !self.dict.strings.is_empty() && self.r.one_in(2) {
                        for (k, c) in self.r.pick(&self.dict.strings).clone().into_iter().enumerate() {
                            if p + k < len {
                                b.v[p + k] = c;
                            }
                        }
                    } else if self.r.one_in(3) {
                        b.v[p] = self.r.next() as u8;
                    } else {
                        b.v[p] ^= 1 << self.r.below(8);
                    }
                }
                _ => {
                    let k = *self.r.pick(&[1usize, 2, 8, 100, 9000, 70000]);
                    let x = if self.r.one_in(2) { 0 } else { self.r.next() as u8 };
                    b.v.resize(len + k, x);
                }
            }
        }
        let mut d = Data::dense(b.v);
        if let Some(k) = cut {
            d.truncate(k);
        }
        if self.r.one_in(25) {
            // the rest of a very long stream
            d.len = match self.r.below(4) { 0 => 1 << 32, 1 => (1 << 32) + self.r.below(1 << 20), 2 => (1 << 62) + 5, _ => i64::MAX as u64 };
            if self.r.one_in(2) {
                let tail = if d.segs.is_empty() { vec![] } else { let s = &d.segs[0].1; s[s.len().saturating_sub(50)..].to_vec() };
                d.continue_with(&tail);
            }
        }
        d
    }

    /// The value, or now and then a literal that the published code does not have.
    fn hot(&mut self, v: &[u8]) -> Vec<u8> {
        if !self.dict.strings.is_empty() && self.r.one_in(4) { self.r.pick(&self.dict.strings).clone() } else { v.to_vec() }
    }

    /// A spelling that a lenient comparison may take for the value.
    fn garnish(&mut self, v: &[u8]) -> Vec<u8> {
        if !self.r.one_in(8) {
            return v.to_vec();
        }
        let extra = |s: &mut Self| -> Vec<u8> {
            if !s.dict.numbers.is_empty() && s.r.one_in(4) {
                let n = *s.r.pick(&s.dict.numbers);
                if n < 256 {
                    return vec![n as u8];
                }
            }
            if !s.dict.strings.is_empty() && s.r.one_in(3) {
                return s.r.pick(&s.dict.strings).clone();
            }
            s.r.pick(&[&b"./"[..], b"../", b"/", b"//", b"\\", b".", b" ", b"  ", b"\t", b"\n", b"\r\n", b"\0", b"\0\0", b"\xef\xbb\xbf", b"x", b"0", b"_", b"-", b"+", b"~", b"#", b"\"", b"'", b"(", b":", b"=", b"&", b",", b";", b"; charset=utf-8", b";x=1", b",x", b".bak", b"?x", b"x/", b"\x7f", b"\xc2\xa0"]).to_vec()
        };
        let mut w = v.to_vec();
        match self.r.below(12) {
            0..=2 => {
                let mut e = extra(self);
                e.append(&mut w);
                w = e;
            }
            3..=5 => {
                let mut e = extra(self);
                w.append(&mut e);
                if self.r.one_in(2) {
                    w.extend_from_slice(b"rest");
                }
            }
            6 => w.make_ascii_uppercase(),
            7 => w.make_ascii_lowercase(),
            8 => {
                let (a, c) = *self.r.pick(&[(b'/', b'\\'), (b'-', b'_'), (b'_', b'-'), (b'.', b'_'), (b'/', b'.'), (b'.', b'/'), (b' ', b'_'), (b'+', b' ')]);
                for x in w.iter_mut() {
                    if *x == a {
                        *x = c;
                    }
                }
            }
            9 => w.retain(|c| c.is_ascii_alphanumeric()),
            10 => {
                if let Some(i) = w.iter().rposition(|c| !c.is_ascii_alphanumeric()) {
                    if self.r.one_in(2) { w.truncate(i) } else { w.drain(..=i); }
                }
            }
            _ => {
                let e = extra(self);
                let i = self.r.below(w.len() as u64 + 1) as usize;
                w.splice(i..i, e);
            }
        }
        w
    }

    /// The same in four bytes.
    fn hot4(&mut self, v: &[u8]) -> Vec<u8> {
        let mut v = self.hot(v);
        v.resize(4, b' ');
        v
    }

    fn hot_number(&mut self, n: u64) -> u64 {
        if !self.dict.numbers.is_empty() && self.r.one_in(4) { *self.r.pick(&self.dict.numbers) } else { n }
    }

    fn hot_guid(&mut self, s: &str) -> Vec<u8> {
        if !self.dict.guids.is_empty() && self.r.one_in(4) { self.r.pick(&self.dict.guids).clone() } else { guid_bytes(s) }
    }

    /// A content of which some part goes on for ever.
    pub fn endless(&mut self, kind: &str) -> Data {
        let mut d = self.make(kind);
        let Some(v) = d.segs.first().map(|s| s.1.clone()) else { return d };
        if d.segs.len() != 1 || v.len() < 24 {
            return d;
        }
        let n = 1 + self.r.below(v.len().min(64) as u64) as usize;
        let at = (16 + self.r.below(v.len() as u64 - 15) as usize).max(n);
        if at > v.len() {
            return d;
        }
        d.truncate(at as u64);
        d.len = 1 << 40;
        d.continue_with(&v[at - n..at]);
        if kind == "zip" && v.len() > 22 {
            // the directory without end
            let mut e = v[v.len() - 22..].to_vec();
            e[..4].copy_from_slice(b"PK\x05\x06");
            d.put((1 << 40) - 22, &e);
        }
        d
    }

    /// For every repeated structure, one of every shape without end.
    pub fn long(&mut self) -> Vec<Data> {
        let mut out = vec![];
        let mut put = |head: &[u8], unit: &[u8]| {
            let mut d = Data::dense(head.to_vec());
            d.len = 1 << 40;
            d.continue_with(unit);
            out.push(d);
        };
        let mut strings: Vec<Vec<u8>> = self.dict.strings.clone();
        strings.truncate(40);
        // boxes
        let sig = b"\0\0\0\x10ftypisom\0\0\0\0";
        let mut types: Vec<Vec<u8>> = ["moov", "trak", "mdia", "hdlr", "minf", "stbl", "free", "mdat", "udta", "ftyp", "uuid"].iter().map(|t| t.as_bytes().to_vec()).collect();
        types.extend(strings.iter().filter(|s| s.len() == 4).cloned());
        for t in &types {
            for size in [0u32, 1, 2, 7, 8, 9, 16, 20, 24, 32] {
                let mut u = size.to_be_bytes().to_vec();
                u.extend_from_slice(t);
                put(sig, &u);
                if size == 1 {
                    for large in [0u64, 8, 15, 16, 17] {
                        let mut u = u.clone();
                        u.extend_from_slice(&large.to_be_bytes());
                        put(sig, &u);
                    }
                }
                if size >= 9 {
                    u.resize(size as usize, 0);
                    put(sig, &u);
                    for h in [&b"vide"[..], b"soun", b"sbtl", b"hint"] {
                        let mut u = u.clone();
                        u.resize(20, 0);
                        u[16..20].copy_from_slice(h);
                        u.resize(u.len().max(size as usize), 0);
                        put(sig, &u);
                    }
                }
            }
        }
        // elements
        let mut ids: Vec<u64> = vec![0x1a45_dfa3, 0x4282, 0x1853_8067, 0x1654_ae6b, 0xae, 0xe0, 0x86, 0x53b8, 0x1f43_b675, 0xec, 0x4286];
        ids.extend(self.dict.numbers.iter().filter(|n| **n < 1 << 32 && **n > 0x7f).take(20));
        for id in ids {
            let w = if id > 0xff_ffff { 4 } else if id > 0xffff { 3 } else if id > 0xff { 2 } else { 1 };
            for head in [&b"\x1a\x45\xdf\xa3\x80"[..], b"\x1a\x45\xdf\xa3\x8b\x42\x82\x88matroska"] {
                for size in [&[0x80u8][..], &[0x81], &[0x82], &[0x88], &[0xc0], &[0x40, 0], &[1, 0, 0, 0, 0, 0, 0, 0], &[0xff]] {
                    let mut u = id.to_be_bytes()[8 - w..].to_vec();
                    u.extend_from_slice(size);
                    put(head, &u);
                    let n = (size[0] & 0x7f) as usize;
                    if size.len() == 1 && n > 0 && n < 70 {
                        for x in [&b""[..], b"matroska", b"V_", b"A_", b"S_"] {
                            let mut u = u.clone();
                            let k = u.len();
                            u.extend_from_slice(x);
                            u.resize(k + n, 0);
                            put(head, &u);
                        }
                    }
                }
            }
        }
        // tags
        for flags in [0u8, 0x10, 0x40, 0x80, 0xff] {
            for size in [0u8, 1, 2, 10, 127] {
                let mut u = vec![b'I', b'D', b'3', 3, 0, flags, 0, 0, 0, size];
                let n = u.len() + size as usize + if flags & 0x10 != 0 { 10 } else { 0 };
                put(b"", &u);
                u.resize(n, 0);
                put(b"", &u);
            }
        }
        // header objects and descriptors
        for guid in ["b7dc0791-a9b7-11cf-8ee6-00c00c205365", "d2d0a440-e307-11d2-97f0-00a0c95ea850", "8cabdca1-a947-11cf-8ee4-00c00c205365", "75b22630-668e-11cf-a6d9-00aa0062ce6c"] {
            for size in [0u64, 1, 16, 23, 24, 25, 26, 28, 40, 48, 100] {
                for n in [24usize, 26, 40, 50, size as usize] {
                    for c in [0u8, 0xff] {
                        let mut h = guid_bytes("75b22630-668e-11cf-a6d9-00aa0062ce6c");
                        h.extend_from_slice(&[0xff, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 1, 2]);
                        let mut u = guid_bytes(guid);
                        u.extend_from_slice(&size.to_le_bytes());
                        if n < 24 {
                            continue;
                        }
                        u.resize(n, c);
                        put(&h, &u);
                        h.extend_from_slice(&u);
                        put(&h, &[c]);
                        put(&h, &[0]);
                        h.extend_from_slice(&[0xff, 0xff]);
                        put(&h, &[0]);
                        put(&h, &[1, 0, 0, 0, 0, 0, 0]);
                    }
                }
            }
        }
        // chunks
        for t in [&b"MDPR"[..], b"PROP", b"CONT", b"DATA"].iter().map(|t| t.to_vec()).chain(strings.iter().filter(|s| s.len() == 4).cloned()) {
            for size in [0u32, 4, 7, 8, 9, 10, 42, 50, 100] {
                for n in [8usize, 10, 42, 50, size as usize] {
                    let mut u = t.clone();
                    u.extend_from_slice(&size.to_be_bytes());
                    u.resize(n.max(8), 0);
                    put(b".RMF\0\0\0\x12\0\0\0\0\0\0\xff\xff\xff\xff", &u);
                }
            }
        }
        // searched and decoded windows
        for head in [&b"%PDF-1.7\n"[..], b"SQLite format 3\0", b"<?xml version=\"1.0\"?>", b"text"] {
            for u in [&b"\0"[..], b"x", b"\n", b"AIPrivateDat.", b"AAAAAAAAAAAAAAAAAAAAAAAAA.", b"<", b"<uof:UOF", b"com.bohemiancoding.sketch", b"\xc3\xa9", b"a\n"] {
                put(head, u);
            }
        }
        // archive directories
        for name in [0usize, 1, 8, 300, 65_535] {
            for wide in [false, true] {
                for fill in [b'x', b'/', b'm'] {
                    let head = b"PK\x03\x04\x14\0\0\0\0\0\0\0\0\0\0\0\0\0\x05\0\0\0\x05\0\0\0\x01\0\0\0xhello";
                    let mut u = B::default();
                    u.raw(b"PK\x01\x02").le(20, 2).le(20, 2).le(0, 8).le(0, 4).le(5, 4).le(6, 4).le(name as u64, 2).le(0, 2).le(0, 2).le(0, 8).le(0, 4);
                    let n = u.v.len();
                    u.v.resize(n + name, fill);
                    let mut d = Data::dense(head.to_vec());
                    d.len = 1 << 40;
                    d.continue_with(&u.v);
                    let mut e = B::default();
                    let at = (1u64 << 40) - 200;
                    let dir = head.len() as u64;
                    if wide {
                        e.raw(b"PK\x06\x06").le(44, 8).le(45, 2).le(45, 2).le(0, 4).le(0, 4).le(1 << 40, 8).le(1 << 40, 8).le(1 << 40, 8).le(dir, 8);
                        e.raw(b"PK\x06\x07").le(0, 4).le(at, 8).le(1, 4);
                    }
                    e.raw(b"PK\x05\x06").le(0, 2).le(0, 2).le(0xffff, 2).le(0xffff, 2).le(0xffff_ffff, 4).le(if wide { 0xffff_ffff } else { dir }, 4);
                    e.le(200 - 22 - if wide { 76 } else { 0 }, 2).pad_to(200);
                    d.put(at, &e.v);
                    out.push(d);
                }
            }
        }
        out
    }

    fn word(&mut self) -> Vec<u8> {
        if !self.dict.strings.is_empty() && self.r.one_in(3) {
            return self.r.pick(&self.dict.strings).clone();
        }
        let n = self.r.below(9) as usize;
        (0..n).map(|_| b'a' + self.r.below(26) as u8).collect()
    }

    /// A count: a few, or around a limit.
    fn count(&mut self, limit: i64, few: u64) -> usize {
        if self.r.one_in(3) { self.r.range(limit - 2, limit + 2) as usize } else { self.r.below(few + 1) as usize }
    }

    fn pad(&mut self) -> usize {
        match self.r.below(12) {
            0 => self.r.range(8100, 8300) as usize,
            1 => self.r.below(300) as usize,
            2 => 20_000,
            3..=5 => self.r.below(9) as usize,
            _ => 0,
        }
    }

    /// Positions of the parts that matter among n: early ones, or the last.
    fn spots(&mut self, n: usize) -> Vec<usize> {
        let k = 1 + self.r.below(2) as usize;
        (0..k).map(|_| if n == 0 { 0 } else if self.r.one_in(2) { n - 1 - self.r.below(3.min(n as u64)) as usize } else { self.r.below(n as u64) as usize }).collect()
    }

    fn asf(&mut self) -> Data {
        let mut b = B::default();
        let n = self.count(256, 5);
        b.raw(&guid_bytes("75b22630-668e-11cf-a6d9-00aa0062ce6c")).le(30 + 24 * n as u64, 8);
        let declared = if self.r.one_in(5) { (n as i64 + self.r.range(-2, 3)).max(0) as u64 } else { n as u64 };
        b.le(declared, 4).raw(&[1, 2]);
        let many = n > 20;
        let spots = self.spots(n);
        for i in 0..n {
            let plain = many && !spots.contains(&i);
            match if plain { 9 } else { self.r.below(10) } {
                0..=4 => {
                    let extra = if many { 0 } else { self.pad() };
                    let size = 40 + extra as u64;
                    b.raw(&guid_bytes("b7dc0791-a9b7-11cf-8ee6-00c00c205365")).le(size, 8);
                    let kind = *self.r.pick(&["f8699e40-5b4d-11cf-a8fd-00805f5c442b", "bc19efc0-5b4d-11cf-a8fd-00805f5c442b", "59dacfc0-59e6-11d0-a3ac-00a0c90348f6"]);
                    let mut g = guid_bytes(kind);
                    if !self.dict.guids.is_empty() && self.r.one_in(3) {
                        g = self.r.pick(&self.dict.guids).clone();
                    }
                    if self.r.one_in(6) {
                        let k = self.r.below(16) as usize;
                        g[k] ^= 1 << self.r.below(8);
                    }
                    b.raw(&g);
                    let l = b.v.len();
                    b.pad_to(l + extra);
                }
                5..=7 => {
                    let start = b.v.len();
                    b.raw(&guid_bytes("d2d0a440-e307-11d2-97f0-00a0c95ea850")).le(0, 8);
                    let m = self.count(32, 3);
                    let dm = if self.r.one_in(5) { (m as i64 + self.r.range(-2, 2)).max(0) as u64 } else { m as u64 };
                    b.le(dm, 2);
                    let hot = self.spots(m);
                    for j in 0..m {
                        let mark = b"D\0V\0R\0 \0F\0i\0l\0e\0 \0V\0e\0r\0s\0i\0o\0n\0".to_vec();
                        let mut name = if hot.contains(&j) && self.r.one_in(2) { mark } else { self.hot(b"W\0M\0/\0x\0") };
                        match self.r.below(8) {
                            0 => name.resize(self.r.range(60, 70) as usize, b'x'),
                            1 => name.resize(200, 0),
                            2 if !name.is_empty() => {
                                let k = self.r.below(name.len() as u64) as usize;
                                name[k] ^= 0x20;
                            }
                            3 => {
                                name.insert(0, b'X');
                            }
                            4 => {
                                name.truncate(name.len().saturating_sub(1 + self.r.below(3) as usize));
                            }
                            _ => {}
                        }
                        b.le(name.len() as u64, 2).raw(&name);
                        let vlen = *self.r.pick(&[0usize, 2, 4, 30, 300]);
                        b.le(self.r.below(6), 2).le(vlen as u64, 2);
                        let x = self.r.bytes(vlen);
                        b.raw(&x);
                    }
                    let extra = if many { 0 } else { self.pad() };
                    let l = b.v.len();
                    b.pad_to(l + extra);
                    let size = (b.v.len() - start) as u64;
                    b.set(start + 16, 8, true, size);
                }
                _ => {
                    let extra = if many { self.r.below(3) as usize } else { self.pad() };
                    let g = self.hot_guid("8cabdca1-a947-11cf-8ee4-00c00c205365");
                    b.raw(&g).le(24 + extra as u64, 8);
                    let l = b.v.len();
                    b.pad_to(l + extra);
                }
            }
        }
        let k = self.pad();
        let l = b.v.len();
        b.pad_to(l + k);
        self.damage(b)
    }

    fn cfb(&mut self) -> Data {
        let mut b = B::default();
        b.raw(b"\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1").pad_to(24);
        b.le(0x3e, 2);
        let version = *self.r.pick(&[3u64, 3, 3, 4, 4, 0, 0x300, 0x103, 0x403, 2]);
        b.le(version, 2).le(0xfffe, 2).le(9, 2).le(6, 2).pad_to(44);
        b.le(self.r.below(3), 4);
        let sector = *self.r.pick(&[0u64, 1, 1, 2, 3, 7, 15, 0x100, 0xffff_fffe, 0xffff_ffff, 0x7fff_ffff, 0x0040_0000, 0x0080_0000]);
        b.le(sector, 4).pad_to(512);
        let entry = (if version == 3 { 512 } else { 4096 }) * (1 + sector);
        let mut class = guid_bytes(if self.r.one_in(3) { "00000000-0000-0000-0000-000000000000" } else { self.r.pick(CLASSES).0 });
        if !self.dict.guids.is_empty() && self.r.one_in(3) {
            class = self.r.pick(&self.dict.guids).clone();
        }
        match self.r.below(8) {
            0 => {
                let k = self.r.below(16) as usize;
                class[k] ^= 1 << self.r.below(8);
            }
            1 => class.reverse(),
            2 => class[..4].reverse(),
            3 => class[4..6].reverse(),
            _ => {}
        }
        let mut e = B::default();
        e.raw(b"R\0o\0o\0t\0").pad_to(64);
        e.le(22, 2).pad_to(80);
        e.raw(&class).pad_to(128);
        let mut second = b"M\0a\0t\0O\0S\0T\0".to_vec();
        let mut third = b"W\0k\0s\0S\0S\0W\0o\0r\0k\0B\0o\0o\0k\0".to_vec();
        match self.r.below(6) {
            0 => second.clear(),
            1 => second = third.clone(),
            2 => {
                let k = self.r.below(second.len() as u64) as usize;
                second[k] ^= 0x20
            }
            3 | 4 => second = self.hot(b"W\0o\0r\0d\0"),
            _ => {}
        }
        match self.r.below(6) {
            0 => third.clear(),
            1 => third = b"M\0a\0t\0O\0S\0T\0".to_vec(),
            2 => {
                let k = self.r.below(third.len() as u64) as usize;
                third[k] ^= 0x20
            }
            3 => third.truncate(20),
            4 => third = self.hot(&third),
            _ => {}
        }
        e.raw(&second).pad_to(256);
        e.raw(&third);
        let full = *self.r.pick(&[256usize, 320, 319, 384, 384, 512, 512, 191, 192, 300]);
        e.pad_to(full);
        if self.r.one_in(3) {
            e.v.truncate(full);
        }
        if entry < 200_000 {
            b.pad_to(entry as usize);
            let base = b.v.len();
            b.raw(&e.v);
            b.f.push((base + 80, 4, true));
            b.f.push((base + 128, 2, true));
            b.f.push((base + 256, 2, true));
            b.f.push((base + 320, 2, true));
            self.damage(b)
        } else {
            let mut d = Data::dense(b.v);
            d.put(entry, &e.v);
            if self.r.one_in(4) {
                let n = d.len - self.r.below(90);
                d.truncate(n);
            }
            d
        }
    }

    fn vint(&mut self, b: &mut B, x: u64) {
        let mut m = 1;
        while m < 8 && x >= (1 << (7 * m)) - 1 {
            m += 1;
        }
        if self.r.one_in(6) {
            m = (m + self.r.below(4) as usize).min(8);
        }
        // now and then the size that stands for an unknown one
        let x = if self.r.one_in(60) { (1 << (7 * m)) - 1 } else { x };
        b.be(x | 1 << (7 * m), m);
    }

    fn element(&mut self, b: &mut B, id: u64, size: u64) {
        let w = if id > 0xff_ffff { 4 } else if id > 0xffff { 3 } else if id > 0xff { 2 } else { 1 };
        b.be(id, w);
        self.vint(b, size);
    }

    fn ebml(&mut self) -> Data {
        let mut b = B::default();
        self.element(&mut b, 0x1a45_dfa3, 31);
        if b.v[0] != 0x1a {
            b.v[0] = 0x1a;
        }
        let mut used = 1;
        if !self.r.one_in(6) {
            let t: &[u8] = *self.r.pick(&[&b"matroska"[..], b"matroska", b"matroska", b"matroska", b"matroskaX", b"matroska\0\0\0\0", b"webm", b"webm\0", b"webmm", b"web", b"Webm", b"matrosk", b"Matroska", b"", b"\0", b"matroskawebm"]);
            if self.r.one_in(3) {
                self.element(&mut b, 0x4286, 1);
                b.raw(&[1]);
                used += 1;
            }
            let t = self.hot(t);
            let t = self.garnish(&t);
            self.element(&mut b, 0x4282, t.len() as u64);
            b.raw(&t);
            used += 1;
        }
        let n = if self.r.one_in(3) { (254 + self.r.below(6) as usize).saturating_sub(used) } else { self.r.below(8) as usize };
        let many = n > 20;
        let spots = self.spots(n);
        for i in 0..n {
            let plain = many && !spots.contains(&i);
            match if plain { 20 + self.r.below(6) } else { self.r.below(22) } {
                0..=7 => {
                    let mut c = self.r.pick(&[&b"A_OPUS"[..], b"A_", b"V_VP9", b"V_", b"S_TEXT/UTF8", b"S_", b"B_VOBBTN", b"a_x", b"A-", b"A", b"", b"XA_", b"V_MPEG4/ISO/AVC"]).to_vec();
                    c = self.hot(&c);
                    c = self.garnish(&c);
                    if self.r.one_in(5) {
                        c.resize(self.r.range(60, 70) as usize, 0);
                    } else if self.r.one_in(8) {
                        c.resize(300, b'A');
                    }
                    self.element(&mut b, 0x86, c.len() as u64);
                    b.raw(&c);
                }
                8..=11 => {
                    let m = *self.r.pick(&[0usize, 1, 1, 1, 2, 7, 8, 9, 12]);
                    let mut c = vec![0; m];
                    if m > 0 && self.r.one_in(2) {
                        let k = if self.r.one_in(2) { m - 1 } else { self.r.below(m as u64) as usize };
                        c[k] = 1 + self.r.below(14) as u8;
                    }
                    self.element(&mut b, 0x53b8, m as u64);
                    b.raw(&c);
                }
                12 => {
                    let p = self.pad() as u64;
                    self.element(&mut b, 0x1f43_b675, p)
                }
                13 => self.element(&mut b, 0x4282, 4),
                14 => {
                    let t: &[u8] = *self.r.pick(&[&b"matroska"[..], b"webm", b"other"]);
                    self.element(&mut b, 0x4282, t.len() as u64);
                    b.raw(t);
                }
                15..=19 => {
                    let id = *self.r.pick(&[0x1853_8067u64, 0x1654_ae6b, 0xae, 0xe0]);
                    let size = self.r.below(2000);
                    self.element(&mut b, id, size);
                    if self.r.one_in(8) {
                        // unknown size
                        let l = b.v.len();
                        b.v[l - 1] = 0xff;
                    }
                }
                _ => {
                    let id = *self.r.pick(&[0xecu64, 0xbf, 0x4286, 0x42f7, 0x2a_d7b1, 0x1549_a966, 0x1c53_bb6b, 0x53b9, 0x53b0, 0x87, 0x1f43_b676]);
                    let id = self.hot_number(id) as u32 as u64;
                    let size = if many { self.r.below(3) } else { self.pad() as u64 };
                    if self.r.one_in(8) {
                        // of unknown size
                        let w = *self.r.pick(&[1usize, 2, 4, 8, 8]);
                        self.element(&mut b, id, 0);
                        b.v.pop();
                        b.be((1 << (7 * w)) - 1 | 1 << (7 * w), w);
                        continue;
                    }
                    self.element(&mut b, id, size);
                    let l = b.v.len();
                    b.pad_to(l + size as usize);
                }
            }
        }
        self.damage(b)
    }

    fn exe(&mut self) -> Data {
        let mut b = B::default();
        b.raw(if self.r.one_in(4) { b"ZM" } else { b"MZ" });
        let k = self.r.bytes(2);
        b.raw(&k).pad_to(60);
        let at = *self.r.pick(&[64u64, 64, 80, 128, 0x100, 4096, 9000, 60, 61, 30, 2, 0xffff_ffff, 0x7fff_ffff, 0xffff_fffb]);
        b.le(at, 4);
        let mut e = B::default();
        let s: &[u8] = *self.r.pick(&[&b"PE\0\0"[..], b"PE\0\0", b"PE\0\0", b"PE\0\x01", b"PE\x01\0", b"LE\0\0", b"LX\0\0", b"NE\x05\x01", b"LEPE", b"NEXX", b"PEPE", b"EP\0\0", b"le\0\0", b"\0\0PE", b"LE", b"NE"]);
        let s = self.hot(s);
        e.raw(&s).le(0x14c, 2).pad_to(20);
        e.le(0xe0, 2);
        let c = *self.r.pick(&[0x2000u64, 0x2102, 0x0102, 0x1fff, 0x20, 0x0020, 0xdfff, 0xffff, 0, 0x4000, 0x1000, 0x2022]);
        e.le(c, 2);
        let extra = *self.r.pick(&[0usize, 0, 1, 2, 40]);
        let l = e.v.len();
        e.pad_to(l + extra);
        if self.r.one_in(4) {
            e.v.truncate(self.r.below(27) as usize);
        }
        if at < 20_000 {
            b.pad_to(at as usize);
            let base = at as usize;
            for (i, x) in e.v.iter().enumerate() {
                if base + i >= 64 || base + i < b.v.len() && !(60..64).contains(&(base + i)) && base + i >= 2 {
                    if base + i < b.v.len() {
                        b.v[base + i] = *x;
                    } else {
                        b.v.push(*x);
                    }
                }
            }
            for (p, w, l) in &e.f {
                b.f.push((base + p, *w, *l));
            }
            self.damage(b)
        } else {
            let mut d = Data::dense(b.v);
            if self.r.one_in(2) {
                d.put(at, &e.v);
            }
            d
        }
    }

    fn id3(&mut self) -> Data {
        let n = if self.r.one_in(3) { self.r.range(62, 67) as usize } else { 1 + self.r.below(3) as usize };
        let mut d = Data::default();
        let mut p = 0u64;
        let mut b = B::default();
        let big = self.r.one_in(12);
        for i in 0..n {
            let size = if n > 10 { self.r.below(3) } else if big && self.r.one_in(2) { *self.r.pick(&[0x0fff_ffffu64, 0x0800_0000, 0x0400_0000, 0x0020_0000, 0x0010_0000]) } else { *self.r.pick(&[0u64, 1, 9, 10, 11, 127, 128, 129, 200, 255, 256, 16383, 16384, 16385, 20000, 2048]) };
            let flags = *self.r.pick(&[0u8, 0, 0x10, 0x40, 0x50, 0x80, 0x20, 0x08, 0xff, 0xef]);
            let mut h = b"ID3".to_vec();
            h.push(if i == 0 { 2 + self.r.below(3) as u8 } else { self.r.below(6) as u8 });
            h.push(self.r.below(2) as u8);
            h.push(flags);
            for s in [21, 14, 7, 0] {
                h.push((size >> s & 127) as u8 | if self.r.one_in(20) { 0x80 } else { 0 });
            }
            let foot = if flags & 0x10 != 0 { 10 } else { 0 };
            if big {
                d.put(p, &h);
            } else {
                let l = b.v.len();
                b.raw(&h);
                b.f.push((l + 6, 4, false));
                b.f.push((l + 5, 1, false));
                let m = b.v.len() + size as usize + foot;
                if size > 20 && self.r.one_in(2) {
                    // something misleading inside the tag
                    b.raw(b"\0\0\0\x06\0\0\0\0\0\0fLaC");
                }
                b.pad_to(m);
                b.v.truncate(m);
            }
            p += 10 + size + foot as u64;
        }
        let t: Vec<u8> = match self.r.below(12) {
            0..=2 => b"fLaC".to_vec(),
            3..=6 => vec![0xff, *self.r.pick(&[0xe2u8, 0xe3, 0xf2, 0xf3, 0xfa, 0xfb])],
            7 => vec![0xff, self.r.next() as u8],
            8 => vec![*self.r.pick(&[0xfeu8, 0x7f, 0]), 0xfb],
            9 => self.r.pick(&[&b"flac"[..], b"fLaX", b"ID3", b"ID", b"fLa", b"OggS", b"RIFF"]).to_vec(),
            10 => self.r.bytes(4),
            _ => self.hot(b"RIFF"),
        };
        let mut t = t;
        let m = *self.r.pick(&[4usize, 8, 9, 10, 10, 11, 12, 30]);
        t.resize(m, 0);
        if big {
            d.put(p, &t);
            d
        } else {
            b.raw(&t);
            self.damage(b)
        }
    }

    fn alternative(&mut self, f: &str) -> Vec<u8> {
        let e = SIGNATURES.iter().find(|e| e.0 == f).unwrap();
        let a = *self.r.pick(e.1);
        let n = a.iter().map(|p| p.0 + p.1.len()).max().unwrap();
        let mut v = vec![0; n];
        for (o, x) in a {
            v[*o..o + x.len()].copy_from_slice(x);
        }
        v
    }

    fn mp4(&mut self) -> Data {
        let mut b = B::default();
        let sig = self.alternative("Mpeg4Part14");
        let size = 16 + 4 * self.r.below(4);
        b.be(size, 4).raw(&sig[4..]).pad_to(size as usize);
        if self.r.one_in(8) {
            // the first box has an extended size
            b.v[..4].copy_from_slice(&[0, 0, 0, 1]);
            b.v.truncate(8);
            b.raw(&sig[8..]);
            b.v.truncate(16);
            b.pad_to(16);
            b.f.push((8, 8, false));
        }
        let n = if self.r.one_in(3) { self.r.range(253, 257) as usize } else { self.r.below(8) as usize };
        let many = n > 20;
        let spots = self.spots(n);
        for i in 0..n {
            let plain = many && !spots.contains(&i);
            let ext = self.r.one_in(5);
            let extra = if many { 0 } else { self.pad() };
            let (kind, content): (&[u8], Vec<u8>) = match if plain { 20 } else { self.r.below(14) } {
                0..=6 => {
                    let mut c = vec![0; 8];
                    let h = *self.r.pick(&[b"vide", b"soun", b"sbtl", b"subt", b"text", b"hint", b"meta", b"Vide", b"vid\0"]);
                    let h = self.hot4(h);
                    c.extend_from_slice(&h);
                    c.resize(12 + self.r.below(14) as usize, 0);
                    (b"hdlr", c)
                }
                7..=10 => (*self.r.pick(&[&b"moov"[..], b"trak", b"mdia"]), vec![]),
                11 => (b"minf", { let mut x = vec![0, 0, 0, 32]; x.extend_from_slice(b"hdlr\0\0\0\0\0\0\0\0vide"); x.resize(32, 0); x }),
                _ => (*self.r.pick(&[&b"free"[..], b"mdat", b"udta", b"tkhd", b"hdlR", b"moof", b"skip", b"uuid", b"meta", b"edts"]), vec![]),
            };
            let (kind, content) = (if self.r.one_in(3) { self.hot4(kind) } else { kind.to_vec() }, content);
            let kind: &[u8] = &kind;
            let container = kind == b"moov" || kind == b"trak" || kind == b"mdia";
            let len = content.len() + if container { 0 } else { extra };
            let declared = if container { self.r.below(5000) } else { len as u64 };
            if ext {
                b.be(1, 4).raw(kind).be(16 + declared, 8);
            } else {
                b.be((8 + declared).max(if container && self.r.one_in(4) { 0 } else { 8 + declared }), 4).raw(kind);
            }
            let l = b.v.len();
            b.raw(&content).pad_to(l + len);
        }
        self.damage(b)
    }

    fn pdf(&mut self) -> Data {
        let mut d = Data::dense(b"%PDF-1.5\n".to_vec());
        let mark = b"AIPrivateData";
        let tiny = !self.r.one_in(6);
        let chunk = 32_768u64;
        let limit = 33_554_432u64;
        let mut used = 9;
        let n = self.r.below(3);
        for _ in 0..n {
            let p = if !self.dict.numbers.is_empty() && self.r.one_in(3) {
                std::cmp::min(*self.r.pick(&self.dict.numbers), limit + 1000).wrapping_add(self.r.range(-20, 20) as u64)
            } else if tiny {
                match self.r.below(4) {
                    0 => 9 + self.r.below(60),
                    1 => self.r.range(1, 9) as u64,
                    _ => (5 + chunk * (1 + self.r.below(3))).wrapping_add(self.r.range(-16, 3) as u64),
                }
            } else {
                match self.r.below(3) {
                    0 => (5 + limit).wrapping_add(self.r.range(-30, 20) as u64),
                    1 => (5 + chunk * (1 + self.r.below(1030))).wrapping_add(self.r.range(-16, 3) as u64),
                    _ => self.r.below(limit + 100_000),
                }
            };
            let m: Vec<u8> = match self.r.below(8) {
                0 => b"AIAIPrivateData".to_vec(),
                1 => b"AIPrivateDatAIPrivateData".to_vec(),
                2 => b"AIPrivateDat".to_vec(),
                3 => b"aIPrivateData".to_vec(),
                4 => b"AIPrivateDatb".to_vec(),
                _ => mark.to_vec(),
            };
            if p < 5 || p > 1 << 40 {
                continue;
            }
            d.put(p, &m);
            used = used.max(p + m.len() as u64);
        }
        // The two halves of the marker at chunk boundaries, some chunks apart.
        if self.r.one_in(4) {
            let k = 1 + self.r.below(12) as usize;
            let at = 5 + chunk * (1 + self.r.below(2));
            let to = at + chunk * self.r.below(3) + if self.r.one_in(4) { self.r.below(13) } else { 0 };
            d.put(at - k as u64, &mark[..k]);
            d.put(to, &mark[k..]);
            used = used.max(to + 13);
        }
        d.len = match self.r.below(6) {
            0 => used,
            1 => used.saturating_sub(self.r.below(14)).max(5),
            2 => (5 + chunk * (1 + self.r.below(3))).wrapping_add(self.r.range(-3, 3) as u64).max(used),
            3 => used + self.r.below(40),
            4 if !tiny => (5 + limit).wrapping_add(self.r.range(-3, 60) as u64).max(used),
            _ => used + self.r.below(70_000),
        };
        let n = d.len;
        d.truncate(n);
        if !tiny && self.r.one_in(3) {
            d.len = 1 << 40;
        }
        d.fill = match self.r.below(4) { 0 => b"AI".to_vec(), 1 => b"AIPrivateDat".to_vec(), 2 => b"x\n".to_vec(), _ => vec![] };
        if d.fill.len() == 12 {
            d.fill.push(b'.');
        }
        d
    }

    fn rm(&mut self) -> Data {
        let mut b = B::default();
        b.raw(b".RMF").be(18, 4).be(0, 2).be(0, 4);
        let n = self.count(64, 5);
        let declared = if self.r.one_in(5) { (n as i64 + self.r.range(-1, 3)).max(0) as u64 } else { n as u64 + 1 };
        b.be(declared, 4);
        let many = n > 20;
        let spots = self.spots(n);
        for i in 0..n {
            if if many { spots.contains(&i) } else { !self.r.one_in(3) } {
                let name = *self.r.pick(&[0usize, 1, 12, 200, 255]);
                let mut mime = self.r.pick(&[&b"audio/x-pn-realaudio"[..], b"video/x-pn-realvideo", b"audio/", b"video/", b"audio", b"logical-fileinfo", b"Video/x", b"xvideo/", b"", b"video"]).to_vec();
                mime = self.hot(&mime);
                mime = self.garnish(&mime);
                mime.truncate(255);
                if self.r.one_in(10) {
                    mime.resize(255, b'v');
                }
                let extra = if many { 0 } else { self.pad() };
                let t = if self.r.one_in(10) { self.hot4(b"MDPr") } else { b"MDPR".to_vec() };
                b.raw(&t).be((8 + 34 + name + mime.len() + extra) as u64, 4);
                let l = b.v.len();
                b.pad_to(l + 32);
                b.be(name as u64, 1);
                let l = b.v.len();
                b.pad_to(l + name);
                b.be(mime.len() as u64, 1).raw(&mime);
                let l = b.v.len();
                b.pad_to(l + extra);
            } else {
                let extra = if many { self.r.below(3) as usize } else { self.pad() };
                let t = *self.r.pick(&[b"PROP", b"CONT", b"DATA", b"INDX"]);
                let t = self.hot4(t);
                b.raw(&t).be(8 + extra as u64, 4);
                let l = b.v.len();
                b.pad_to(l + extra);
            }
        }
        self.damage(b)
    }

    fn windowed(&mut self, head: &[u8], from: usize, size: usize, marks: &[Vec<u8>], filler: &[u8]) -> Data {
        let mut b = B::default();
        b.raw(head);
        let len = match self.r.below(5) {
            0 => from + size + self.r.below(2000) as usize,
            1 => (from + size).wrapping_add(self.r.range(-3, 30) as usize),
            2 => from + self.r.below(60) as usize,
            _ => from + self.r.below(size as u64 / 4) as usize,
        };
        if !filler.is_empty() {
            while b.v.len() < len {
                b.raw(filler);
            }
        }
        b.pad_to(len);
        for m in marks {
            let p = match self.r.below(6) {
                0 => (from + size).wrapping_sub(m.len()).wrapping_add(self.r.range(-3, 4) as usize),
                1 => from.wrapping_add(self.r.range(-4, 4) as usize).max(head.len()),
                2 => (len as i64 - m.len() as i64 + self.r.range(-3, 2)).max(head.len() as i64) as usize,
                3 => self.r.range(8100, 8250) as usize,
                _ => head.len() + self.r.below(len.saturating_sub(head.len()) as u64 + 1) as usize,
            };
            b.pad_to(p + m.len());
            b.v[p..p + m.len()].copy_from_slice(m);
        }
        if self.r.one_in(4) {
            let n = b.v.len() - self.r.below(20.min(b.v.len() as u64 - head.len() as u64 + 1)) as usize;
            b.v.truncate(n);
        }
        Data::dense(b.v)
    }

    fn twist(&mut self, m: &[u8]) -> Vec<u8> {
        let mut v = m.to_vec();
        match self.r.below(10) {
            0 => {
                let k = self.r.below(v.len() as u64) as usize;
                v[k] ^= 0x20;
            }
            1 => {
                v.pop();
            }
            2 => {
                let mut p = v[..v.len() - 1].to_vec();
                p.extend_from_slice(&v);
                v = p;
            }
            3 => {
                let k = self.r.below(v.len() as u64) as usize;
                let mut p = v[..k].to_vec();
                p.extend_from_slice(&v);
                v = p;
            }
            _ => v = self.garnish(&v),
        }
        v
    }

    fn sqlite(&mut self) -> Data {
        let n = self.r.below(3);
        let mut marks = vec![];
        for _ in 0..n {
            marks.push(self.twist(b"com.bohemiancoding.sketch3"));
        }
        let f: &[u8] = *self.r.pick(&[&b""[..], b"com.", b"com.bohemiancoding.sketch2", b"\0\0xyz"]);
        self.windowed(b"SQLite format 3\0", 100, 32_768, &marks, f)
    }

    fn xml(&mut self) -> Data {
        let n = self.r.below(4);
        let mut marks = vec![];
        for _ in 0..n {
            let (all, ms, _) = *self.r.pick(DIALECTS);
            if all {
                for m in ms {
                    if !self.r.one_in(5) {
                        marks.push(self.twist(m));
                    }
                }
            } else {
                let m = *self.r.pick(ms);
                marks.push(self.twist(m));
            }
        }
        if self.r.one_in(4) {
            let w = self.word();
            marks.push(w);
        }
        let h = self.alternative("ExtensibleMarkupLanguage");
        let f: &[u8] = *self.r.pick(&[&b""[..], b"<", b" <a/>\n", b"<uof:UOF", b"<tt ", b"<t", b"<ma<"]);
        self.windowed(&h, 5, 8192, &marks, f)
    }

    fn txt(&mut self) -> Data {
        let mut v: Vec<u8> = vec![];
        let n = if self.r.one_in(2) { self.r.range(13, 19) as usize } else { self.r.below(6) as usize };
        let long = self.r.one_in(3);
        for i in 0..n {
            let near = i + 1 == n || self.r.one_in(10) || i == 15 || i == 16;
            let m = if long && self.r.one_in(4) { *self.r.pick(&[8191usize, 8192, 20000, 65000]) } else { self.r.below(30) as usize };
            v.extend(std::iter::repeat(b'x').take(m));
            if near || self.r.one_in(3) {
                v.extend_from_slice(*self.r.pick(&[
                    &b"caf\xc3\xa9"[..], b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\t", b"\x0b\x0c", b"\r", b"\xc2\x85", b"\xc2\xa0", b"\xc2\x80", b"\x7f", b"\x1b", b"\0", b"\x08", b"\xff", b"\xc3", b"\xe2\x82",
                    b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\x80", b"\xf0\x9f\x98", b"\xe2\x80\xa8", b"\xef\xbb\xbf", b"\xc2\x9f", b"\x01", b"\xe2\x28", b"plain", b"plain", b"plain", b"plain",
                ]));
            }
            if i + 1 < n || self.r.one_in(2) {
                v.extend_from_slice(*self.r.pick(&[&b"\n"[..], b"\n", b"\n", b"\r\n", b"\r", b"\n\n"]));
            }
        }
        if self.r.one_in(3) {
            // around the read limit
            let at = (65_536 + self.r.range(-5, 5)) as usize;
            if v.len() < at {
                let fill = if self.r.one_in(6) { b'\n' } else { b'y' };
                if self.r.one_in(2) {
                    v.resize(at, fill);
                } else {
                    let mut w = vec![fill; at - v.len()];
                    w.extend_from_slice(&v);
                    v = w;
                }
                if v.len() < at {
                    v.resize(at, b'y');
                }
            }
            let t: &[u8] = *self.r.pick(&[&b"\xc3\xa9"[..], b"\xe2\x82\xac", b"\xf0\x9f\x98\x80", b"\0", b"\xff", b"\xc3", b"\xe2\x82", b"z", b"\xf0\x9f\x98\x28", b"\xe2\x28", b"\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b\x1b", b""]);
            v.extend_from_slice(t);
            let m = *self.r.pick(&[0usize, 0, 1, 100, 5000]);
            v.extend(std::iter::repeat(b'z').take(m));
        }
        if self.r.one_in(5) {
            let w = self.word();
            v.extend_from_slice(&w);
        }
        if v.is_empty() && !self.r.one_in(10) {
            v.push(b'q');
        }
        Data::dense(v)
    }

    fn name(&mut self) -> Vec<u8> {
        let mut s = match self.r.below(9) {
            0 | 1 => self.r.pick(NAMES).0.to_string(),
            2 | 3 | 4 => {
                let (st, en, co, no, _) = *self.r.pick(RULES);
                let mut s = st.first().unwrap_or(&"").to_string();
                if !no.is_empty() && self.r.one_in(3) {
                    s += *self.r.pick(&["a/", "/"]);
                }
                s += *self.r.pick(&["x", "", "app", "y.z"]);
                if let Some(c) = co.first() {
                    if !self.r.one_in(4) {
                        s += c;
                    }
                }
                if !en.is_empty() && !self.r.one_in(4) {
                    s += self.r.pick(en);
                }
                s
            }
            5 => "META-INF/MANIFEST.MF".to_string(),
            6 => "mimetype".to_string(),
            7 => String::from_utf8_lossy(&self.word()).into_owned(),
            _ => (*self.r.pick(&["", "a", "[Content_Types].xml", "_rels/.rels", "dir/word/x", "Word/document.xml", "xl", "doc.kmz", "sub/doc.kml", ".fb2", "word/", "x/.usd", "META-INF/", "docProps/app.xml"])).to_string(),
        }
        .into_bytes();
        match self.r.below(14) {
            0 if !s.is_empty() => {
                let k = self.r.below(s.len() as u64) as usize;
                s[k] ^= 0x20;
            }
            1 => s.insert(0, *self.r.pick(&[b' ', b'/', 0xff, 0])),
            2 => s.push(*self.r.pick(&[b' ', b'/', 0xff, 0, b'x'])),
            3 => {
                s.pop();
            }
            _ => {}
        }
        self.garnish(&s)
    }

    fn zip(&mut self) -> Data {
        let mut b = B::default();
        if self.r.one_in(10) {
            // a short archive: the end record at every small offset
            b.raw(b"PK\x03\x04");
            let k = self.r.below(40) as usize;
            b.pad_to(4 + k);
            if self.r.one_in(2) && k >= 4 {
                let at = if self.r.one_in(2) && k >= 20 { 4 + k - 20 } else { 4 + self.r.below(k as u64 - 3) as usize };
                b.v[at..at + 4].copy_from_slice(b"PK\x06\x07");
            }
            let (n, at) = (self.r.below(3), self.r.below(60));
            b.raw(b"PK\x05\x06").le(0, 2).le(0, 2).le(n, 2).le(n, 2).le(0, 4).le(at, 4).le(0, 2);
            let l = b.v.len();
            let tail = self.r.below(30) as usize;
            b.pad_to(l + tail);
            let cut = if self.r.one_in(6) { self.r.below(24) as usize } else { 0 };
            b.v.truncate(b.v.len() - cut);
            return Data::dense(b.v);
        }
        let n = if self.r.one_in(5) { self.r.range(1022, 1026) as usize } else { self.r.below(5) as usize };
        let many = n > 20;
        let spots = self.spots(n);
        b.raw(b"PK\x03\x04").le(20, 2).le(0, 2).le(0, 2).le(0, 8).le(5, 4).le(5, 4).le(1, 2).le(0, 2).raw(b"hello!");
        let k = self.pad();
        let l = b.v.len();
        b.pad_to(l + k);
        let mut locals = vec![];
        // local headers of mimetype entries
        for _ in 0..3 {
            let mut t = match self.r.below(5) {
                0 => (*self.r.pick(&["", "application/zip", "text/plain", "Application/epub+zip"])).as_bytes().to_vec(),
                1 => self.hot(b"application/epub+zip"),
                _ => self.r.pick(TYPES).0.as_bytes().to_vec(),
            };
            t = self.garnish(&t);
            match self.r.below(9) {
                0 => t.extend_from_slice(*self.r.pick(&[&b"\n"[..], b" ", b"\r\n", b"\xc2\xa0", b"\0", b"\xe2\x80\x83"])),
                1 => t.insert(0, *self.r.pick(&[b' ', b'\t', b'x', 0xff])),
                2 => t.extend(std::iter::repeat(b' ').take(self.r.range(180, 260) as usize)),
                3 => {
                    t.pop();
                }
                4 => {
                    t.resize(256usize.wrapping_add(self.r.range(-1, 2) as usize), b' ');
                }
                _ => {}
            }
            let at = b.v.len();
            let extra = *self.r.pick(&[0usize, 0, 4, 300]);
            let nl = *self.r.pick(&[8usize, 8, 8, 0, 20]);
            b.raw(b"PK\x03\x04").le(20, 2).le(0, 2).le(0, 2).le(0, 8).le(t.len() as u64, 4).le(t.len() as u64, 4).le(nl as u64, 2).le(extra as u64, 2);
            let l = b.v.len();
            b.raw(b"mimetype");
            b.v.truncate(l + nl);
            b.pad_to(l + nl + extra);
            b.raw(&t);
            locals.push((at, t.len()));
        }
        let dir = b.v.len();
        for i in 0..n {
            let plain = many && !spots.contains(&i);
            let name = if plain { format!("f{}", i).into_bytes() } else { self.name() };
            let (at, size) = *self.r.pick(&locals);
            let size = if self.r.one_in(6) { 0 } else { size };
            let un = if self.r.one_in(5) { size + 1 } else { size };
            let (x, c) = if many { (0, self.r.below(2) as usize) } else { (self.pad(), *self.r.pick(&[0usize, 0, 3, 50])) };
            let before = b.f.len();
            b.raw(b"PK\x01\x02").le(20, 2).le(20, 2).le(0, 2).le(0, 2).le(0, 4).le(0, 4).le(size as u64, 4).le(un as u64, 4).le(name.len() as u64, 2).le(x as u64, 2).le(c as u64, 2).le(0, 2).le(0, 2).le(0, 4).le(at as u64, 4);
            if plain {
                b.f.truncate(before);
            }
            let l = b.v.len();
            b.raw(&name).pad_to(l + name.len() + x + c);
        }
        let end = b.v.len();
        let declared = if self.r.one_in(5) { (n as i64 + self.r.range(-2, 2)).max(0) as u64 } else { n as u64 };
        let zip64 = self.r.one_in(4);
        let k = if zip64 || self.r.one_in(6) { self.r.below(30) as usize } else { 0 };
        b.pad_to(end + k);
        let wrong = self.r.one_in(2);
        if zip64 {
            let at = b.v.len();
            b.raw(b"PK\x06\x06").le(44, 8).le(45, 2).le(45, 2).le(0, 4).le(0, 4).le(if wrong { declared } else { 0 }, 8).le(declared, 8).le((end - dir) as u64, 8).le(dir as u64, 8);
            if self.r.one_in(4) {
                let k = self.r.below(20) as usize;
                let l = b.v.len();
                b.pad_to(l + k);
            }
            b.raw(if self.r.one_in(8) { b"PK\x06\x08" } else { b"PK\x06\x07" }).le(0, 4).le(at as u64, 8).le(1, 4);
            if self.r.one_in(8) {
                b.raw(&[0]);
            }
        }
        let (dn, ds) = if zip64 && wrong { (0xffff, 0xffff_ffff) } else { (declared, dir as u64) };
        let comment = *self.r.pick(&[0usize, 0, 0, 5, 22, 100, 300, 65535, 65530]);
        b.raw(b"PK\x05\x06").le(0, 2).le(0, 2).le(if self.r.one_in(3) { self.r.below(3) } else { dn }, 2).le(dn, 2).le((end - dir) as u64, 4).le(ds, 4).le(comment as u64, 2);
        let l = b.v.len();
        b.pad_to(l + comment);
        if comment >= 22 && self.r.one_in(3) {
            // a second end record, or only its signature, in the comment
            let at = l + self.r.below((comment - 4) as u64 + 1) as usize;
            b.v[at..at + 4].copy_from_slice(b"PK\x05\x06");
        }
        if self.r.one_in(20) {
            // only an end record
            let p = b.v.len() - comment - 22;
            b.v.drain(..p);
            b.f.clear();
        }
        if comment > 60_000 && self.r.one_in(2) {
            // the record around the limit of what is searched
            let k = self.r.range(-8, 8);
            let want = (b.v.len() as i64 + (65_535 - comment as i64) + k) as usize;
            b.v.resize(want, 0);
        }
        self.damage(b)
    }

    /// A signature, whole or cut, possibly changed in one place or together with another one.
    pub fn sig(&mut self) -> Data {
        let e = self.r.pick(SIGNATURES);
        let mut v: Vec<u8> = vec![];
        let m = 1 + self.r.one_in(3) as usize;
        let mut last: &[Part] = &[];
        for k in 0..m {
            let e = if k == 0 { e } else { self.r.pick(SIGNATURES) };
            let a = *self.r.pick(e.1);
            let n = a.iter().map(|p| p.0 + p.1.len()).max().unwrap();
            if v.len() < n {
                let x = if self.r.one_in(4) { b' ' } else { 0 };
                v.resize(n, x);
            }
            for (o, x) in a {
                v[*o..o + x.len()].copy_from_slice(x);
            }
            last = a;
        }
        match self.r.below(8) {
            0 => {
                v.pop();
            }
            1 => {
                let (o, x) = self.r.pick(last);
                let k = o + self.r.below(x.len() as u64) as usize;
                v[k] ^= 1 << self.r.below(8);
            }
            2 => {
                let (o, x) = self.r.pick(last);
                let k = o + x.len() - self.r.below(2) as usize;
                v.truncate(k);
            }
            3 => {
                let k = *self.r.pick(&[1usize, 4, 100, 40_000]);
                let l = v.len();
                v.resize(l + k, if self.r.one_in(2) { 0 } else { b'A' });
            }
            4 => {
                // shifted by one
                if self.r.one_in(2) {
                    v.insert(0, 0);
                } else {
                    v.remove(0);
                }
            }
            _ => {}
        }
        Data::dense(v)
    }

    fn fixture(&mut self) -> Data {
        if self.fixtures.is_empty() {
            return self.sig();
        }
        let mut b = B::default();
        let v = self.r.pick(self.fixtures).clone();
        b.v = v;
        if self.r.one_in(3) {
            return Data::dense(b.v);
        }
        if self.r.one_in(3) && !b.v.is_empty() {
            let k = self.r.below(b.v.len() as u64 + 1) as usize;
            b.v.truncate(k);
        }
        for _ in 0..12 {
            let l = b.v.len() as u64;
            if l > 8 {
                let p = self.r.below(l.min(4096) - 8) as usize;
                b.f.push((p, *self.r.pick(&[1usize, 2, 4, 8]), self.r.one_in(2)));
            }
        }
        self.damage(b)
    }

    fn tiny(&mut self) -> Data {
        let n = self.r.below(12) as usize;
        let mut v = if self.r.one_in(2) { self.r.bytes(n) } else { self.word() };
        if self.r.one_in(3) {
            let x = if self.r.one_in(2) { 0 } else { self.r.next() as u8 };
            v.resize(*self.r.pick(&[0usize, 1, 36_869, 36_870, 36_871, 65_535, 65_536, 65_537, 100_000]), x);
        }
        Data::dense(v)
    }
}
