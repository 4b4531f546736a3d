//! Contents: mostly a few bytes, possibly far apart, so that huge streams stay cheap.

#[derive(Clone, Default)]
pub struct Data {
    pub len: u64,
    /// Repeated wherever no segment says otherwise; zero bytes when empty.
    pub fill: Vec<u8>,
    /// Later segments override earlier ones.
    pub segs: Vec<(u64, Vec<u8>)>,
}

impl Data {
    pub fn dense(v: Vec<u8>) -> Self {
        Data { len: v.len() as u64, fill: vec![], segs: vec![(0, v)] }
    }

    /// Fills `out` with the bytes at `p`, returning how many there are.
    pub fn read(&self, p: u64, out: &mut [u8]) -> usize {
        if p >= self.len {
            return 0;
        }
        let n = std::cmp::min(out.len() as u64, self.len - p) as usize;
        let out = &mut out[..n];
        if self.segs.len() == 1 && self.segs[0].0 <= p && p + n as u64 <= self.segs[0].0 + self.segs[0].1.len() as u64 {
            let k = (p - self.segs[0].0) as usize;
            out.copy_from_slice(&self.segs[0].1[k..k + n]);
            return n;
        }
        if self.fill.is_empty() {
            out.fill(0);
        } else {
            let m = self.fill.len() as u64;
            let mut k = (p % m) as usize;
            for b in out.iter_mut() {
                *b = self.fill[k];
                k += 1;
                if k == self.fill.len() {
                    k = 0;
                }
            }
        }
        for (s, v) in &self.segs {
            let (a, b) = (std::cmp::max(*s, p), std::cmp::min(s.saturating_add(v.len() as u64), p + n as u64));
            if a < b {
                out[(a - p) as usize..(b - p) as usize].copy_from_slice(&v[(a - s) as usize..(b - s) as usize]);
            }
        }
        n
    }

    pub fn bytes(&self, p: i128, n: i128) -> Option<Vec<u8>> {
        if n <= 0 {
            return Some(vec![]);
        }
        if p < 0 || p + n > self.len as i128 {
            return None;
        }
        let mut v = vec![0; n as usize];
        self.read(p as u64, &mut v);
        Some(v)
    }

    /// The bytes at p, at most n.
    pub fn window(&self, p: u64, n: u64) -> Vec<u8> {
        let n = if p >= self.len { 0 } else { std::cmp::min(n, self.len - p) };
        let mut v = vec![0; n as usize];
        self.read(p, &mut v);
        v
    }

    pub fn all(&self) -> Vec<u8> {
        self.window(0, self.len)
    }

    pub fn put(&mut self, p: u64, v: &[u8]) {
        self.len = std::cmp::max(self.len, p + v.len() as u64);
        self.segs.push((p, v.to_vec()));
    }

    /// After the first segment come repetitions of `unit`.
    pub fn continue_with(&mut self, unit: &[u8]) {
        let end = self.segs.first().map_or(0, |s| s.0 + s.1.len() as u64);
        self.fill = unit.to_vec();
        if !unit.is_empty() {
            self.fill.rotate_right((end % unit.len() as u64) as usize);
        }
    }

    pub fn truncate(&mut self, n: u64) {
        self.len = std::cmp::min(self.len, n);
        let len = self.len;
        self.segs.retain(|s| s.0 < len);
        for s in &mut self.segs {
            let k = std::cmp::min(s.1.len() as u64, len - s.0) as usize;
            s.1.truncate(k);
        }
    }

    /// A one-line description that `parse` reads back.
    pub fn text(&self) -> String {
        let mut s = format!("len={}", self.len);
        if !self.fill.is_empty() {
            s += &format!(" fill={}", hex(&self.fill));
        }
        for (p, v) in &self.segs {
            // long runs of one byte are written as x*n
            s += &format!(" {}:", p);
            let mut i = 0;
            while i < v.len() {
                let mut j = i;
                while j < v.len() && v[j] == v[i] {
                    j += 1;
                }
                if j - i >= 12 {
                    s += &format!("({:02x}*{})", v[i], j - i);
                } else {
                    for _ in i..j {
                        s += &format!("{:02x}", v[i]);
                    }
                }
                i = j;
            }
        }
        s
    }

    pub fn parse(text: &str) -> Option<Self> {
        let mut d = Data::default();
        for w in text.split_whitespace() {
            if let Some(n) = w.strip_prefix("len=") {
                d.len = n.parse().ok()?;
            } else if let Some(h) = w.strip_prefix("fill=") {
                d.fill = unhex(h)?;
            } else if let Some((p, h)) = w.split_once(':') {
                d.segs.push((p.parse().ok()?, unhex(h)?));
            }
        }
        Some(d)
    }
}

pub fn hex(v: &[u8]) -> String {
    v.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    let (mut v, mut i) = (vec![], 0);
    while i < b.len() {
        if b[i] == b'(' {
            let e = i + s[i..].find(')')?;
            let (x, n) = s[i + 1..e].split_once('*')?;
            v.extend(std::iter::repeat(u8::from_str_radix(x, 16).ok()?).take(n.parse().ok()?));
            i = e + 1;
        } else {
            v.push(u8::from_str_radix(s.get(i..i + 2)?, 16).ok()?);
            i += 2;
        }
    }
    Some(v)
}
