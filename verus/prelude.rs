// Stream, error and byte-string model used by the extracted functions. Everything marked
// external_body here is trusted: it states what the standard library's documented behaviour is.

#[derive(PartialEq, Eq, Clone, Copy, Structural)]
pub enum ErrorKind { InvalidData, UnexpectedEof, Interrupted, InvalidInput, Other, Unsupported, NotFound, WouldBlock, TimedOut, PermissionDenied, BrokenPipe, WriteZero, OutOfMemory, NotSeekable }

#[verifier::external_body]
pub struct Error { pub k: ErrorKind }
impl Error {
    pub uninterp spec fn skind(&self) -> ErrorKind;
    /// Identity of a failure reported by a stream.
    pub uninterp spec fn eid(&self) -> int;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.skind() { self.k }
    #[verifier::external_body]
    pub fn new_(k: ErrorKind) -> (r: Error) ensures r.skind() == k { Error { k } }
}
pub type Result<T> = core::result::Result<T, Error>;
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

/// The bytes d[p..p+n].
pub open spec fn bytes_at(d: Seq<u8>, p: int, n: int) -> Seq<u8> {
    Seq::new(if n < 0 { 0nat } else { n as nat }, |i: int| d[p + i])
}
/// Bounds of products of two computed numbers, for the prover's second attempt.
pub broadcast proof fn lemma_product(x: int, y: int)
    ensures
        x >= 0 && y >= 0 ==> #[trigger] (x * y) >= 0,
        0 <= x <= 64 && y >= 0 ==> x * y <= 64 * y, 0 <= y <= 64 && x >= 0 ==> x * y <= 64 * x,
        0 <= x <= 4096 && y >= 0 ==> x * y <= 4096 * y, 0 <= y <= 4096 && x >= 0 ==> x * y <= 4096 * x,
        0 <= x <= 65535 && y >= 0 ==> x * y <= 65535 * y, 0 <= y <= 65535 && x >= 0 ==> x * y <= 65535 * x,
{
    if x >= 0 && y >= 0 {
        assert(x * y >= 0) by (nonlinear_arith) requires x >= 0, y >= 0;
        if x <= 64 { assert(x * y <= 64 * y) by (nonlinear_arith) requires 0 <= x <= 64, y >= 0; }
        if y <= 64 { assert(x * y <= 64 * x) by (nonlinear_arith) requires 0 <= y <= 64, x >= 0; }
        if x <= 4096 { assert(x * y <= 4096 * y) by (nonlinear_arith) requires 0 <= x <= 4096, y >= 0; }
        if y <= 4096 { assert(x * y <= 4096 * x) by (nonlinear_arith) requires 0 <= y <= 4096, x >= 0; }
        if x <= 65535 { assert(x * y <= 65535 * y) by (nonlinear_arith) requires 0 <= x <= 65535, y >= 0; }
        if y <= 65535 { assert(x * y <= 65535 * x) by (nonlinear_arith) requires 0 <= y <= 65535, x >= 0; }
    }
}
pub broadcast proof fn lemma_bytes_at_sub(d: Seq<u8>, p: int, n: int, a: int, b: int)
    requires 0 <= a <= b <= n,
    ensures #[trigger] bytes_at(d, p, n).subrange(a, b) == bytes_at(d, p + a, b - a),
{
    assert(bytes_at(d, p, n).subrange(a, b) =~= bytes_at(d, p + a, b - a));
}
pub open spec fn can_read(d: Seq<u8>, p: int, n: int) -> bool { n == 0 || p + n <= d.len() }
pub open spec fn can_seek(t: int) -> bool { 0 <= t <= u64::MAX }

/// A `Read + Seek` source. `data` is its content, `pos` its position. A `reliable` source never
/// fails (except by `Interrupted`, at most `budget` more times); any other source may fail at any
/// operation, and an operation that does not fail behaves as documented. `cost` adds up operations
/// and bytes transferred; a seek is charged the read-ahead buffer it discards.
#[verifier::external_body]
pub struct Stream { pub d: Vec<u8>, pub p: u64, pub plan: u8, pub tick: u64 }

impl Stream {
    pub uninterp spec fn data(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    pub uninterp spec fn reliable(&self) -> bool;
    pub uninterp spec fn budget(&self) -> int;
    pub uninterp spec fn cost(&self) -> int;
    /// Bytes of the head still to be read; 0 once the head was read, the end of the content was
    /// reached, a read of the head failed, or another operation intervened.
    pub uninterp spec fn head_left(&self) -> int;
    /// The failure of the read of the head, if it failed.
    pub uninterp spec fn head_err(&self) -> Option<int>;

/*det*/    /// The position is not determined by the content any more (an operation failed).
/*det*/    pub uninterp spec fn lost(&self) -> bool;
    pub open spec fn wf(&self) -> bool {
        0 <= self.pos() <= u64::MAX && self.data().len() <= 0x7fff_ffff_ffff_ffff && self.budget() >= 0
    }

    /// What every operation preserves.
    pub open spec fn same(&self, o: &Stream) -> bool {
        self.wf() && self.data() == o.data() && self.reliable() == o.reliable() && self.budget() <= o.budget() && self.cost() >= o.cost() && (o.head_left() == 0 ==> self.head_left() == 0 && self.head_err() == o.head_err())
    }
    /// The head was not failed by this operation, and it is over.
    pub open spec fn past_head(&self, o: &Stream) -> bool {
        self.head_left() == 0 && self.head_err() == o.head_err()
    }

    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires old(self).wf(),
/*det*/            !old(self).lost(), raw_reads(),
        ensures
            final(self).same(old(self)),
/*det*/            r is Ok ==> !final(self).lost(),
            final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> {
                let k = r->Ok_0 as int;
                let rest = old(self).data().len() - old(self).pos();
                &&& 0 <= k <= old(buf)@.len()
                &&& (k == 0) == (old(buf)@.len() == 0 || rest <= 0)
                &&& k > 0 ==> k <= rest
                &&& final(self).pos() == old(self).pos() + k
                &&& forall|i: int| 0 <= i < k ==> final(buf)@[i] == old(self).data()[old(self).pos() + i]
                &&& final(self).cost() <= old(self).cost() + 1 + k
                &&& final(self).head_err() == old(self).head_err()
                &&& final(self).head_left() == (if old(buf)@.len() > 0 && k == 0 || old(self).head_left() <= k { 0 } else { old(self).head_left() - k })
            },
            r is Err ==> final(self).cost() <= old(self).cost() + 1,
            r is Err && r->Err_0.skind() == ErrorKind::Interrupted ==> final(self).head_err() == old(self).head_err() && final(self).head_left() == old(self).head_left(),
            r is Err && r->Err_0.skind() != ErrorKind::Interrupted && old(self).head_left() > 0 ==> final(self).head_err() == Some(r->Err_0.eid()) && final(self).head_left() == 0,
            r is Err && (old(self).reliable() || r->Err_0.skind() == ErrorKind::Interrupted) ==> {
                &&& r->Err_0.skind() == ErrorKind::Interrupted
                &&& final(self).pos() == old(self).pos()
/*det*/                &&& !final(self).lost()
                &&& final(self).budget() < old(self).budget()
                &&& final(self).cost() == old(self).cost()
            },
    {
        if self.plan > 0 {
            self.tick += 1;
            if self.tick % 3 == 0 { return Err(Error { k: ErrorKind::Interrupted }); }
        }
        let at = if self.p > self.d.len() as u64 { self.d.len() } else { self.p as usize };
        let mut k = std::cmp::min(buf.len(), self.d.len() - at);
        if self.plan > 0 { k = std::cmp::min(k, self.plan as usize); }
        buf[..k].copy_from_slice(&self.d[at..at + k]);
        self.p += k as u64;
        Ok(k)
    }

    #[verifier::external_body]
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        requires old(self).wf(),
/*det*/            !old(self).lost(),
        ensures
            final(self).same(old(self)),
/*det*/            r is Ok ==> !final(self).lost(),
            final(buf)@.len() == old(buf)@.len(),
            final(self).cost() <= old(self).cost() + 1 + old(buf)@.len(),
            r is Ok ==> {
                &&& can_read(old(self).data(), old(self).pos(), old(buf)@.len() as int)
                &&& final(self).pos() == old(self).pos() + old(buf)@.len()
                &&& final(buf)@ == bytes_at(old(self).data(), old(self).pos(), old(buf)@.len() as int)
            },
            r is Err && old(self).reliable() ==> !can_read(old(self).data(), old(self).pos(), old(buf)@.len() as int),
    {
        let at = if self.p > self.d.len() as u64 { self.d.len() } else { self.p as usize };
        if self.d.len() - at < buf.len() {
            self.p = std::cmp::max(self.p, self.d.len() as u64);
            return Err(Error { k: ErrorKind::UnexpectedEof });
        }
        buf.copy_from_slice(&self.d[at..at + buf.len()]);
        self.p += buf.len() as u64;
        Ok(())
    }

    #[verifier::external_body]
    pub fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>)
        requires old(self).wf(),
/*det*/            p is Current ==> !old(self).lost(),
        ensures
            final(self).same(old(self)),
/*det*/            r is Ok ==> !final(self).lost(),
            final(self).cost() <= old(self).cost() + 8193,
            final(self).past_head(old(self)),
            ({
                let t = seek_target(old(self), p);
                &&& r is Ok ==> can_seek(t) && r->Ok_0 == t && final(self).pos() == t
                &&& r is Err && old(self).reliable() ==> !can_seek(t)
            }),
    {
        let t = match p {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(n) => (self.d.len() as u64).checked_add_signed(n),
            SeekFrom::Current(n) => self.p.checked_add_signed(n),
        };
        match t {
            Some(n) => { self.p = n; Ok(n) }
            None => Err(Error { k: ErrorKind::InvalidInput }),
        }
    }

    #[verifier::external_body]
    pub fn seek_relative(&mut self, n: i64) -> (r: Result<()>)
        requires old(self).wf(),
/*det*/            !old(self).lost(),
        ensures
            final(self).same(old(self)),
/*det*/            r is Ok ==> !final(self).lost(),
            final(self).cost() <= old(self).cost() + 8193,
            final(self).past_head(old(self)),
            r is Ok ==> can_seek(old(self).pos() + n) && final(self).pos() == old(self).pos() + n,
            r is Err && old(self).reliable() ==> !can_seek(old(self).pos() + n),
    { self.seek(SeekFrom::Current(n)).map(|_| ()) }

    #[verifier::external_body]
    pub fn rewind(&mut self) -> (r: Result<()>)
        requires old(self).wf(),
        ensures
            final(self).same(old(self)),
/*det*/            r is Ok ==> !final(self).lost(),
            final(self).cost() <= old(self).cost() + 8193,
            final(self).past_head(old(self)),
            r is Ok ==> final(self).pos() == 0,
            r is Err ==> !old(self).reliable(),
    { self.p = 0; Ok(()) }

    #[verifier::external_body]
    pub fn stream_position(&mut self) -> (r: Result<u64>)
        requires old(self).wf(),
/*det*/            !old(self).lost(),
        ensures
            final(self).same(old(self)),
/*det*/            r is Ok ==> !final(self).lost(),
            final(self).cost() <= old(self).cost() + 1,
            r is Ok ==> r->Ok_0 == old(self).pos() && final(self).pos() == old(self).pos(),
            r is Err ==> !old(self).reliable(),
    { Ok(self.p) }

    /// `take(n).read_to_end(buf)`
    #[verifier::external_body]
    pub fn take_read_to_end(&mut self, n: u64, buf: &mut Vec<u8>) -> (r: Result<usize>)
        requires old(self).wf(),
/*det*/            !old(self).lost(),
        ensures
            final(self).same(old(self)),
/*det*/            r is Ok ==> !final(self).lost(),
            final(self).cost() <= old(self).cost() + 8193 + 2 * n,
            r is Ok && n >= old(self).head_left() ==> final(self).past_head(old(self)),
            r is Err && n <= old(self).head_left() && old(self).head_left() > 0 ==> final(self).head_err() == Some(r->Err_0.eid()) && final(self).head_left() == 0,
            r is Ok ==> {
                let rest = old(self).data().len() - old(self).pos();
                let k = if rest <= 0 { 0 } else if rest < n { rest } else { n as int };
                &&& r->Ok_0 == k
                &&& final(buf)@ == old(buf)@ + bytes_at(old(self).data(), old(self).pos(), k)
            },
            r is Err ==> !old(self).reliable(),
    {
        let at = if self.p > self.d.len() as u64 { self.d.len() } else { self.p as usize };
        let k = std::cmp::min(n, (self.d.len() - at) as u64) as usize;
        buf.extend_from_slice(&self.d[at..at + k]);
        self.p += k as u64;
        Ok(k)
    }

    /// `BufReader::new(self)` from here on: same content, same position.
    #[verifier::external_body]
    pub fn buffer_here(&mut self)
        requires old(self).wf(),
        ensures
/*det*/            final(self).lost() == old(self).lost(),
            final(self).same(old(self)), final(self).pos() == old(self).pos(), final(self).budget() == old(self).budget(), final(self).head_left() == old(self).head_left(), final(self).head_err() == old(self).head_err(), final(self).cost() <= old(self).cost() + 8193,
    { }

    /// `BufReader::new(&mut stream)`: the original stays behind at an unspecified position.
    #[verifier::external_body]
    pub fn buffered(s: &mut Stream) -> (r: Stream)
        requires old(s).wf(),
        ensures
/*det*/            r.lost() == old(s).lost(),
            final(s).same(old(s)), r.same(old(s)), r.pos() == old(s).pos(),
    { Stream { d: s.d.clone(), p: s.p, plan: s.plan, tick: 0 } }

    /// `Cursor::new(bytes)`
    #[verifier::external_body]
    pub fn cursor(b: &[u8]) -> (r: Stream)
        ensures
/*det*/            !r.lost(),
            r.wf(), r.data() == b@, r.pos() == 0, r.reliable(), r.cost() == 0, r.head_left() == HEAD_LEN, r.head_err() is None,
    { Stream { d: b.to_vec(), p: 0, plan: 0, tick: 0 } }
}
/// Number of bytes the signatures are matched against.
pub spec const HEAD_LEN: int = 36870;
pub open spec fn seek_target(s: &Stream, p: SeekFrom) -> int {
    match p { SeekFrom::Start(n) => n as int, SeekFrom::End(n) => s.data().len() + n, SeekFrom::Current(n) => s.pos() + n }
}

#[verifier::external_body]
pub struct PathArg { x: u8 }
impl PathArg {
    pub uninterp spec fn opens(&self) -> bool;
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn healthy(&self) -> bool;
}
#[verifier::external_body]
pub fn file_open__(p: PathArg) -> (r: Result<Stream>)
    ensures
/*det*/        r is Ok ==> !r->Ok_0.lost(),
        (r is Ok) == p.opens(), r is Ok ==> r->Ok_0.wf() && r->Ok_0.pos() == 0 && r->Ok_0.data() == p.content() && r->Ok_0.reliable() == p.healthy() && r->Ok_0.cost() == 0 && r->Ok_0.head_left() == HEAD_LEN && r->Ok_0.head_err() is None,
{ unimplemented!() }

// ----- byte strings and strings -----
/// Marks (without saying anything) the values a function tests, so that lemmas about a test can be
/// limited to them.
#[verifier::opaque]
pub open spec fn seen<T>(s: Seq<T>) -> bool { true }
pub trait AsB { spec fn bv(&self) -> Seq<u8>; fn as_b(&self) -> (r: &[u8]) ensures r@ == self.bv(); }
impl AsB for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_b(&self) -> (r: &[u8]) { self } }
impl AsB for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_b(&self) -> (r: &[u8]) { self.as_slice() } }
impl<const N: usize> AsB for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } fn as_b(&self) -> (r: &[u8]) { self.as_slice() } }
impl<T: AsB + ?Sized> AsB for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } fn as_b(&self) -> (r: &[u8]) { (**self).as_b() } }
impl<T: AsB + ?Sized> AsB for &mut T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } fn as_b(&self) -> (r: &[u8]) { (**self).as_b() } }

#[verifier::opaque]
pub open spec fn seq_starts<T>(s: Seq<T>, p: Seq<T>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
#[verifier::opaque]
pub open spec fn seq_ends<T>(s: Seq<T>, p: Seq<T>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
/// A sequence starts with at most one of two sequences of the same length.
pub broadcast proof fn lemma_starts_unique<T>(s: Seq<T>, a: Seq<T>, b: Seq<T>)
    requires #[trigger] seq_starts(s, a), #[trigger] seq_starts(s, b), a.len() == b.len(),
    ensures a == b,
{ reveal(seq_starts); }
pub broadcast proof fn lemma_ends_unique<T>(s: Seq<T>, a: Seq<T>, b: Seq<T>)
    requires #[trigger] seq_ends(s, a), #[trigger] seq_ends(s, b), a.len() == b.len(),
    ensures a == b,
{ reveal(seq_ends); }
pub broadcast proof fn lemma_starts_def<T>(s: Seq<T>, p: Seq<T>)
    ensures #[trigger] seq_starts(s, p) == (p.len() <= s.len() && s.subrange(0, p.len() as int) == p),
        seq_starts(s, p) == (p.len() <= s.len() && forall|q: int| 0 <= q < p.len() ==> #[trigger] p[q] == s[q]),
{
    reveal(seq_starts);
    if p.len() <= s.len() && forall|q: int| 0 <= q < p.len() ==> #[trigger] p[q] == s[q] { assert(s.subrange(0, p.len() as int) =~= p); }
}
pub broadcast proof fn lemma_ends_def<T>(s: Seq<T>, p: Seq<T>)
    ensures #[trigger] seq_ends(s, p) == (p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p),
{ reveal(seq_ends); }
#[verifier::opaque]
pub open spec fn occurs_at<T>(s: Seq<T>, p: Seq<T>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub broadcast proof fn lemma_occurs_at<T>(s: Seq<T>, p: Seq<T>, i: int)
    ensures #[trigger] occurs_at(s, p, i) == (0 <= i && i + p.len() <= s.len() && forall|q: int| 0 <= q < p.len() ==> #[trigger] p[q] == s[i + q]),
{
    reveal(occurs_at);
    if 0 <= i && i + p.len() <= s.len() {
        if forall|q: int| 0 <= q < p.len() ==> #[trigger] p[q] == s[i + q] {
            assert(s.subrange(i, i + p.len()) =~= p);
        } else if s.subrange(i, i + p.len()) == p {
            assert forall|q: int| 0 <= q < p.len() implies #[trigger] p[q] == s[i + q] by { assert(s.subrange(i, i + p.len())[q] == s[i + q]); }
        }
    }
}
pub open spec fn occurs<T>(s: Seq<T>, p: Seq<T>) -> bool { exists|i: int| #[trigger] occurs_at(s, p, i) }
#[verifier::opaque]
pub open spec fn is_first<T>(s: Seq<T>, p: Seq<T>, i: int) -> bool { occurs_at(s, p, i) && forall|j: int| j < i ==> !#[trigger] occurs_at(s, p, j) }
#[verifier::opaque]
pub open spec fn is_last<T>(s: Seq<T>, p: Seq<T>, i: int) -> bool { occurs_at(s, p, i) && forall|j: int| j > i ==> !#[trigger] occurs_at(s, p, j) }
pub broadcast proof fn lemma_first_occ<T>(s: Seq<T>, p: Seq<T>, i: int)
    requires #[trigger] is_first(s, p, i),
    ensures occurs(s, p), 0 <= i, i + p.len() <= s.len(),
{ reveal(is_first); lemma_occurs_at(s, p, i); }
/// The position of the last occurrence, if there is one.
pub open spec fn last_occ<T>(s: Seq<T>, p: Seq<T>) -> int { choose|i: int| is_last(s, p, i) }
pub broadcast proof fn lemma_last_occ<T>(s: Seq<T>, p: Seq<T>, i: int)
    requires #[trigger] is_last(s, p, i),
    ensures last_occ(s, p) == i, occurs(s, p), 0 <= i, i + p.len() <= s.len(),
{
    lemma_occurs_at(s, p, i);
    reveal(is_last);
    let k = last_occ(s, p);
    assert(is_last(s, p, k));
    if k < i { assert(!occurs_at(s, p, i)); }
    if i < k { assert(!occurs_at(s, p, k)); }
}
/// Looking for a pattern in two overlapping windows finds what one window over both would.
pub broadcast proof fn lemma_occurs_join(d: Seq<u8>, p: int, a: int, p2: int, b: int, m: Seq<u8>)
    requires m.len() >= 1, 0 <= a, 0 <= b, p <= p2 <= p + a <= p2 + b, p + a - p2 >= m.len() - 1,
    ensures (#[trigger] occurs(bytes_at(d, p, a), m) || #[trigger] occurs(bytes_at(d, p2, b), m)) == occurs(bytes_at(d, p, p2 + b - p), m),
{
    let (x, y, w) = (bytes_at(d, p, a), bytes_at(d, p2, b), bytes_at(d, p, p2 + b - p));
    if occurs(x, m) {
        let i = choose|i: int| #[trigger] occurs_at(x, m, i);
        lemma_occurs_at(x, m, i); lemma_occurs_at(w, m, i);
        assert forall|q: int| 0 <= q < m.len() implies #[trigger] m[q] == w[i + q] by { assert(m[q] == x[i + q]); }
        assert(occurs_at(w, m, i));
    }
    if occurs(y, m) {
        let i = choose|i: int| #[trigger] occurs_at(y, m, i);
        lemma_occurs_at(y, m, i); lemma_occurs_at(w, m, i + p2 - p);
        assert forall|q: int| 0 <= q < m.len() implies #[trigger] m[q] == w[i + p2 - p + q] by { assert(m[q] == y[i + q]); }
        assert(occurs_at(w, m, i + p2 - p));
    }
    if occurs(w, m) {
        let i = choose|i: int| #[trigger] occurs_at(w, m, i);
        lemma_occurs_at(w, m, i);
        if i + m.len() <= a {
            lemma_occurs_at(x, m, i);
            assert forall|q: int| 0 <= q < m.len() implies #[trigger] m[q] == x[i + q] by { assert(m[q] == w[i + q]); }
            assert(occurs_at(x, m, i));
        } else {
            let j = i + p - p2;
            lemma_occurs_at(y, m, j);
            assert forall|q: int| 0 <= q < m.len() implies #[trigger] m[q] == y[j + q] by { assert(m[q] == w[i + q]); }
            assert(occurs_at(y, m, j));
        }
    }
}

#[verifier::external_body]
pub fn bytes_eq<A: AsB + ?Sized, B: AsB + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.bv() == b.bv()) { a.as_b() == b.as_b() }
/// `s[a..b] == *q`
pub fn slice_part_eq__(s: &[u8], a: usize, b: usize, q: &[u8]) -> (r: bool)
    requires a <= b <= s@.len(),
    ensures r == (s@.subrange(a as int, b as int) == q@),
{ bytes_eq(&s[a..b], q) }
/// `s[a..].starts_with(q)`
pub fn slice_part_starts__(s: &[u8], a: usize, q: &[u8]) -> (r: bool)
    requires a <= s@.len(),
    ensures r == (s@.len() >= a + q@.len() && s@.subrange(a as int, a + q@.len()) == q@),
{
    proof {
        reveal(seq_starts);
        let t = s@.subrange(a as int, s@.len() as int);
        if q@.len() <= t.len() { assert(t.subrange(0, q@.len() as int) =~= s@.subrange(a as int, a + q@.len())); }
    }
    bytes_starts_with(&s[a..], q)
}
#[verifier::external_body]
pub fn bytes_starts_with<A: AsB + ?Sized, B: AsB + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == seq_starts(a.bv(), b.bv()), seen(a.bv()) { a.as_b().starts_with(b.as_b()) }
#[verifier::external_body]
pub fn bytes_ends_with<A: AsB + ?Sized, B: AsB + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == seq_ends(a.bv(), b.bv()) { a.as_b().ends_with(b.as_b()) }

/// The characters of a string slice (`str::view`, kept apart from vstd's axioms about literals).
pub uninterp spec fn strv(s: &str) -> Seq<char>;
pub trait AsS { spec fn sv(&self) -> Seq<char>; fn as_s(&self) -> (r: &str) ensures strv(r) == self.sv(); }
impl AsS for str { open spec fn sv(&self) -> Seq<char> { strv(self) } fn as_s(&self) -> (r: &str) { self } }
impl AsS for String { open spec fn sv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn as_s(&self) -> (r: &str) { self.as_str() } }
impl<T: AsS + ?Sized> AsS for &T { open spec fn sv(&self) -> Seq<char> { (**self).sv() } fn as_s(&self) -> (r: &str) { (**self).as_s() } }
#[verifier::external_body]
pub fn str_eq<A: AsS + ?Sized, B: AsS + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.sv() == b.sv()), seen(a.sv()) { a.as_s() == b.as_s() }
#[verifier::external_body]
pub fn str_starts_with<A: AsS + ?Sized, B: AsS + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == seq_starts(a.sv(), b.sv()), seen(a.sv()) { a.as_s().starts_with(b.as_s()) }
#[verifier::external_body]
pub fn str_ends_with<A: AsS + ?Sized, B: AsS + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == seq_ends(a.sv(), b.sv()), seen(a.sv()) { a.as_s().ends_with(b.as_s()) }
#[verifier::external_body]
pub fn str_contains<A: AsS + ?Sized, B: AsS + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == occurs(a.sv(), b.sv()), seen(a.sv()) { a.as_s().contains(b.as_s()) }
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn str_trim<A: AsS + ?Sized>(a: &A) -> (r: &str) ensures strv(r) == trimmed(a.sv()) { a.as_s().trim() }
/// The replacement decoding of a byte string.
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn utf8_lossy__<A: AsB + ?Sized>(a: &A) -> (r: String) ensures r@ == lossy(a.bv()) { String::from_utf8_lossy(a.as_b()).into_owned() }
#[verifier::external_body]
pub fn string_new__() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
pub fn string_cap__(n: usize) -> (r: String) requires n <= alloc_limit() ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn string_push__(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + strv(t) { s.push_str(t) }
#[verifier::external_body]
pub fn string_from__(s: &str) -> (r: String) ensures r@ == strv(s) { String::from(s) }
#[verifier::external_body]
pub fn str_cat__(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { a + &b }
/// A text sink (`fmt::Formatter` without options).
#[verifier::external_body]
pub struct Formatter { x: u8 }
#[verifier::external_body]
pub struct FmtError { x: u8 }
impl Formatter { pub uninterp spec fn out(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn fmt_write__(f: &mut Formatter, s: String) -> (r: core::result::Result<(), FmtError>)
    ensures r is Ok ==> final(f).out() == old(f).out() + s@,
{ unimplemented!() }
/// `format!("{:02x}", b)`
pub uninterp spec fn hex2(b: u8) -> Seq<char>;
#[verifier::external_body]
pub fn hex2__(b: u8) -> (r: String) ensures r@ == hex2(b) { format!("{:02x}", b) }

pub fn same_ty__<T>(a: T, b: T) -> (r: T) ensures r == a { a }

/// `vec![0; n]`
#[verifier::external_body]
pub fn vec_zeroed__(n: usize) -> (r: Vec<u8>)
    requires n <= alloc_limit(),
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == 0,
{ vec![0; n] }
#[verifier::external_body]
pub fn vec_filled__(x: u8, n: usize) -> (r: Vec<u8>)
    requires n <= alloc_limit(),
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x,
{ vec![x; n] }
#[verifier::external_body]
pub fn vec_with_capacity__(n: usize) -> (r: Vec<u8>)
    requires n <= alloc_limit(),
    ensures r@.len() == 0,
{ Vec::with_capacity(n) }

pub open spec fn rot_right(s: Seq<u8>, k: int) -> Seq<u8> { s.subrange(s.len() - k, s.len() as int) + s.subrange(0, s.len() - k) }
#[verifier::external_body]
pub fn slice_rotate_right__(s: &mut [u8], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == rot_right(old(s)@, k as int),
{ s.rotate_right(k) }
#[verifier::external_body]
pub fn slice_copy_within__(s: &mut [u8], a: usize, b: usize, to: usize)
    requires a <= b, b <= old(s)@.len(), to + (b - a) <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(0, to as int) + old(s)@.subrange(a as int, b as int) + old(s)@.subrange(to + (b - a), old(s)@.len() as int),
{ s.copy_within(a..b, to) }
#[verifier::external_body]
pub fn windows_position__(s: &[u8], n: usize, p: &[u8]) -> (r: Option<usize>)
    requires n > 0,
    ensures
        n == p@.len() ==> (r is Some ==> is_first(s@, p@, r->Some_0 as int)) && (r is None ==> !occurs(s@, p@)),
        n != p@.len() ==> r is None,
{ s.windows(n).position(|w| w == p) }
#[verifier::external_body]
pub fn slice_rotate_left__(s: &mut [u8], k: usize)
    requires k <= old(s)@.len(),
    ensures final(s)@ == old(s)@.subrange(k as int, old(s)@.len() as int) + old(s)@.subrange(0, k as int),
{ s.rotate_left(k) }

/// A reachable call of this function is a panic.
#[verifier::external_body]
pub fn panic__<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn unreachable__<T>() -> (r: T) requires false { unimplemented!() }

// ----- text -----
pub trait AsC { spec fn cv(&self) -> char; fn as_c(&self) -> (r: char) ensures r == self.cv(); }
impl AsC for char { open spec fn cv(&self) -> char { *self } fn as_c(&self) -> (r: char) { *self } }
impl<T: AsC + ?Sized> AsC for &T { open spec fn cv(&self) -> char { (**self).cv() } fn as_c(&self) -> (r: char) { (**self).as_c() } }
/// `char::is_control` and `char::is_whitespace`
pub uninterp spec fn is_control(c: char) -> bool;
pub uninterp spec fn is_whitespace(c: char) -> bool;
pub open spec fn sp_char_is_control<T: AsC>(c: &T) -> bool { is_control(c.cv()) }
pub open spec fn sp_char_is_whitespace<T: AsC>(c: &T) -> bool { is_whitespace(c.cv()) }
#[verifier::external_body]
pub fn char_is_control<T: AsC>(c: &T) -> (r: bool) ensures r == is_control(c.cv()) { c.as_c().is_control() }
#[verifier::external_body]
pub fn char_is_whitespace<T: AsC>(c: &T) -> (r: bool) ensures r == is_whitespace(c.cv()) { c.as_c().is_whitespace() }
/// `c.is_ascii_control()`, `c.is_ascii_whitespace()`
pub open spec fn sp_char_is_ascii_control<T: AsC>(c: &T) -> bool { c.cv() as u32 <= 31 || c.cv() as u32 == 127 }
pub open spec fn sp_char_is_ascii_whitespace<T: AsC>(c: &T) -> bool { c.cv() as u32 == 32 || c.cv() as u32 == 9 || c.cv() as u32 == 10 || c.cv() as u32 == 12 || c.cv() as u32 == 13 }
#[verifier::external_body]
pub fn char_is_ascii_control<T: AsC>(c: &T) -> (r: bool) ensures r == sp_char_is_ascii_control(c) { c.as_c().is_ascii_control() }
#[verifier::external_body]
pub fn char_is_ascii_whitespace<T: AsC>(c: &T) -> (r: bool) ensures r == sp_char_is_ascii_whitespace(c) { c.as_c().is_ascii_whitespace() }

/// Whether a byte string is UTF-8, and what it decodes to.
pub uninterp spec fn utf8_ok(b: Seq<u8>) -> bool;
pub uninterp spec fn utf8_chars(b: Seq<u8>) -> Seq<char>;
/// When the first thing wrong with a byte string is that its last character is cut: the number of
/// bytes before that character.
pub uninterp spec fn utf8_cut(b: Seq<u8>) -> Option<int>;

/// The lines of a byte string, without their terminators (`BufRead::lines`).
pub open spec fn lines_of(b: Seq<u8>) -> Seq<Seq<u8>> decreases b.len() {
    if b.len() == 0 { Seq::empty() } else {
        let k = line_end(b, 0);
        if k < 0 || k >= b.len() { seq![b] } else { seq![strip_cr(b.subrange(0, k))] + lines_of(b.subrange(k + 1, b.len() as int)) }
    }
}
pub open spec fn line_end(b: Seq<u8>, i: int) -> int decreases b.len() - i {
    if i < 0 || i >= b.len() || b[i] == 10 { i } else { line_end(b, i + 1) }
}
pub open spec fn strip_cr(b: Seq<u8>) -> Seq<u8> {
    if b.len() > 0 && b[b.len() - 1] == 13 { b.subrange(0, b.len() - 1) } else { b }
}
#[verifier::external_body]
pub struct LineSeq { v: Vec<Option<String>> }
impl LineSeq {
    pub uninterp spec fn lines(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn count_(&self) -> (r: usize) ensures r == self.lines().len() { self.v.len() }
    #[verifier::external_body]
    pub fn line_(&self, i: usize) -> (r: Result<String>)
        requires i < self.lines().len(),
        ensures (r is Ok) == utf8_ok(self.lines()[i as int]), r is Ok ==> r->Ok_0@ == utf8_chars(self.lines()[i as int]),
    { match &self.v[i] { Some(s) => Ok(s.clone()), None => Err(Error { k: ErrorKind::InvalidData }) } }
}
#[verifier::external_body]
pub fn bytes_lines__(b: &[u8]) -> (r: LineSeq) ensures r.lines() == lines_of(b@) { LineSeq { v: std::io::BufRead::lines(b).map(|l| l.ok()).collect() } }
#[verifier::external_body]
pub fn str_chars__<A: AsS + ?Sized>(a: &A) -> (r: Vec<char>) ensures r@ == a.sv() { a.as_s().chars().collect() }

#[verifier::external_body]
pub struct Utf8Error { e: core::str::Utf8Error }
impl Utf8Error {
    pub uninterp spec fn cut(&self) -> Option<int>;
    #[verifier::external_body]
    pub fn error_len(&self) -> (r: Option<usize>) ensures (r is None) == (self.cut() is Some) { self.e.error_len() }
    pub uninterp spec fn upto(&self) -> int;
    #[verifier::external_body]
    pub fn valid_up_to(&self) -> (r: usize) ensures r == self.upto(), self.cut() is Some ==> self.cut() == Some(r as int) { self.e.valid_up_to() }
}
#[verifier::external_body]
pub fn from_utf8__<A: AsB + ?Sized>(a: &A) -> (r: core::result::Result<(), Utf8Error>)
    ensures (r is Ok) == utf8_ok(a.bv()), r is Err ==> r->Err_0.cut() == utf8_cut(a.bv()) && 0 <= r->Err_0.upto() <= a.bv().len(),
        r is Ok ==> utf8_cut(a.bv()) is None,
{ match core::str::from_utf8(a.as_b()) { Ok(_) => Ok(()), Err(e) => Err(Utf8Error { e }) } }

/// No slice is larger than isize::MAX bytes.
#[verifier::external_body]
pub broadcast proof fn axiom_slice_len(s: &[u8])
    ensures #[trigger] s@.len() <= isize::MAX,
{ }
