//! Readers and writers with a chosen chunking and a chosen point of failure.
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

/// something happens once so many bytes went by
pub struct Gate {
    pub at: Option<usize>,
    pub open: Box<dyn FnMut()>,
}

impl Gate {
    /// how many bytes may go by now
    fn pass(&mut self, pos: usize, n: usize) -> usize {
        match self.at {
            Some(at) if pos < at => n.min(at - pos),
            Some(_) => {
                self.now();
                n
            }
            None => n,
        }
    }
    /// what did not happen yet
    pub fn now(&mut self) {
        if self.at.take().is_some() {
            (self.open)();
        }
    }
}

pub struct Stream {
    pub data: Vec<u8>,
    pub pos: usize,
    /// sizes of successive reads, cycled through; empty: as much as asked for
    pub chunks: Vec<usize>,
    turn: usize,
    /// reading the byte at this position fails
    pub fault: Option<(usize, ErrorKind)>,
    pub interrupts: bool,
    interrupted: bool,
    /// the highest position handed out
    pub reached: usize,
    pub faulted: bool,
    pub gate: Option<Gate>,
}

impl Stream {
    pub fn new(data: Vec<u8>, pos: usize) -> Self {
        Stream {
            data,
            pos,
            chunks: vec![],
            turn: 0,
            fault: None,
            interrupts: false,
            interrupted: false,
            reached: pos,
            faulted: false,
            gate: None,
        }
    }
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.interrupts && !self.interrupted {
            self.interrupted = true;
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        self.interrupted = false;
        let mut n = buf.len();
        if let Some(g) = &mut self.gate {
            n = g.pass(self.pos, n);
        }
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.turn % self.chunks.len()].max(1));
            self.turn += 1;
        }
        if let Some((at, kind)) = self.fault {
            if self.pos >= at {
                self.faulted = true;
                return Err(Error::new(kind, "the stream failed"));
            }
            n = n.min(at - self.pos);
        }
        n = n.min(self.data.len().saturating_sub(self.pos));
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        self.reached = self.reached.max(self.pos);
        Ok(n)
    }
}

impl Seek for Stream {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.data.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if p < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "before the start"));
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}

pub struct Sink {
    pub out: Vec<u8>,
    pub pos: usize,
    pub chunks: Vec<usize>,
    turn: usize,
    /// writing more than this many bytes fails
    pub limit: Option<(usize, ErrorKind)>,
    pub faulted: bool,
    pub gate: Option<Gate>,
}

impl Sink {
    pub fn new() -> Self {
        Sink { out: vec![], pos: 0, chunks: vec![], turn: 0, limit: None, faulted: false, gate: None }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if let Some(g) = &mut self.gate {
            n = g.pass(self.pos, n);
        }
        if !self.chunks.is_empty() {
            n = n.min(self.chunks[self.turn % self.chunks.len()].max(1));
            self.turn += 1;
        }
        if let Some((limit, kind)) = self.limit {
            if self.pos >= limit {
                self.faulted = true;
                if kind == ErrorKind::WriteZero {
                    return Ok(0); // a writer that is full says so like this
                }
                return Err(Error::new(kind, "the writer failed"));
            }
            n = n.min(limit - self.pos);
        }
        for x in &buf[..n] {
            if self.pos < self.out.len() {
                self.out[self.pos] = *x;
            } else {
                self.out.push(*x);
            }
            self.pos += 1;
        }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Sink {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let p = match to {
            SeekFrom::Start(p) => p as i64,
            SeekFrom::End(d) => self.out.len() as i64 + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if p < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "before the start"));
        }
        self.pos = p as usize;
        Ok(p as u64)
    }
}
