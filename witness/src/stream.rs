//! The streams the crate is given: any split of the content into reads, interruptions, faults, and the
//! counts of what was asked of them.

use crate::data::Data;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};

/// How the content is delivered.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Plan {
    /// Bytes per read: 0 is all that is asked for, 255 a varying number.
    pub chunk: u8,
    /// Every n-th read is interrupted first (0: none).
    pub interrupt: u8,
    /// Reads do not cross multiples of this (0: they do).
    pub align: u16,
    /// The operation that fails (0: none), counted from 1.
    pub fault: u64,
    /// Whether all later operations fail too.
    pub lasting: bool,
    /// Only positioning is counted and fails.
    pub seeks: bool,
    /// Index into KINDS.
    pub kind: u8,
}

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::InvalidData, ErrorKind::NotFound, ErrorKind::WouldBlock, ErrorKind::TimedOut,
    ErrorKind::BrokenPipe, ErrorKind::InvalidInput, ErrorKind::PermissionDenied,
];

/// Bytes and operations after which the stream stops cooperating.
pub const BUDGET: u64 = 268_435_456;

pub struct Stream<'a> {
    pub d: &'a Data,
    pub plan: Plan,
    pos: u64,
    pub ops: u64,
    reads: u64,
    seeks: u64,
    interrupted: bool,
    pub moved: u64,
    rng: u64,
    /// The head of the content was delivered (36,870 bytes, or the end).
    pub head_done: bool,
    /// The operations needed for that.
    pub head_ops: u64,
    /// The fault that hit while the head was read.
    pub head_fault: Option<u64>,
    pub faulted: bool,
}

impl<'a> Stream<'a> {
    pub fn new(d: &'a Data, plan: Plan) -> Self {
        Stream { d, plan, pos: 0, ops: 0, reads: 0, seeks: 0, interrupted: false, moved: 0, rng: 0x1234_5678_9abc_def1, head_done: false, head_ops: 0, head_fault: None, faulted: false }
    }

    pub fn cost(&self) -> u64 {
        self.ops + self.moved
    }

    fn op(&mut self, seek: bool) -> Result<()> {
        self.ops += 1;
        self.seeks += seek as u64;
        if !self.head_done {
            self.head_ops = self.ops;
        }
        if self.cost() > BUDGET {
            return Err(Error::new(ErrorKind::Other, "budget"));
        }
        let at = if self.plan.seeks { self.seeks } else { self.ops };
        if self.plan.fault != 0 && (seek || !self.plan.seeks) && (at == self.plan.fault || self.plan.lasting && at > self.plan.fault) {
            self.faulted = true;
            if !seek && !self.head_done && self.head_fault.is_none() {
                self.head_fault = Some(self.ops);
            }
            return Err(Error::new(KINDS[self.plan.kind as usize % KINDS.len()], format!("fault {}", self.ops)));
        }
        Ok(())
    }
}

impl Read for Stream<'_> {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.reads += 1;
        if self.plan.interrupt != 0 && !self.interrupted && self.reads % self.plan.interrupt as u64 == 0 {
            self.interrupted = true;
            self.ops += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        self.interrupted = false;
        self.op(false)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = match self.plan.chunk {
            0 => buf.len(),
            255 => {
                self.rng ^= self.rng << 13;
                self.rng ^= self.rng >> 7;
                self.rng ^= self.rng << 17;
                let k = [1, 2, 3, 7, 13, 100, 1000, 8191, 20000][(self.rng % 9) as usize];
                std::cmp::min(buf.len(), k)
            }
            k => std::cmp::min(buf.len(), k as usize),
        };
        if self.plan.align != 0 {
            let a = self.plan.align as u64;
            n = std::cmp::min(n as u64, a - self.pos % a) as usize;
        }
        let n = self.d.read(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        self.moved += n as u64;
        if !self.head_done && (n == 0 || self.pos >= 36_870) {
            self.head_done = true;
        }
        Ok(n)
    }
}

impl Seek for Stream<'_> {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.op(true)?;
        let p = match to {
            SeekFrom::Start(n) => Some(n),
            SeekFrom::End(n) => self.d.len.checked_add_signed(n),
            SeekFrom::Current(n) => self.pos.checked_add_signed(n),
        };
        match p {
            Some(n) => {
                self.pos = n;
                Ok(n)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "invalid seek to a negative or overflowing position")),
        }
    }
}
