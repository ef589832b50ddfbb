//! Simulated byte streams: sources that deliver in pieces, stall, are interrupted, end early or
//! fail; sinks that take part of a write, are interrupted, fill up or fail.

use std::io::{self, ErrorKind, Read, Write};

use crate::tape::Rng;

pub const KINDS: &[ErrorKind] = &[
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::StorageFull,
    ErrorKind::PermissionDenied,
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::NotConnected,
];

pub const IO_MSG: &str = "simulated stream failure";

pub fn io_error(kind: ErrorKind) -> io::Error {
    io::Error::new(kind, IO_MSG)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    /// Everything arrives.
    Whole,
    /// The stream ends at this byte.
    Eof(usize),
    /// The stream fails at this byte.
    Fail(usize, ErrorKind),
    /// The stream fails at this byte once and goes on when it is asked again.
    Once(usize, ErrorKind),
    /// The process is killed when it has read this many bytes.
    Panic(usize),
}

/// How a stream cuts its data: 0 as large as asked for, otherwise at most `max` bytes a time.
#[derive(Clone, Copy, Debug)]
pub struct Cut {
    pub max: usize,
    /// Out of 16: how often a transfer is interrupted first.
    pub interrupts: u64,
    pub seed: u64,
}

pub const WHOLE: Cut = Cut {
    max: 0,
    interrupts: 0,
    seed: 0,
};

pub struct Source<'a> {
    data: &'a [u8],
    pos: usize,
    end: End,
    cut: Cut,
    r: Rng,
    pub interrupted: u64,
    pub reads: u64,
    pub failed: bool,
}

impl<'a> Source<'a> {
    pub fn new(data: &'a [u8], cut: Cut, end: End) -> Self {
        Source {
            data,
            pos: 0,
            end,
            cut,
            r: Rng::new(cut.seed),
            interrupted: 0,
            reads: 0,
            failed: false,
        }
    }
}

impl Read for Source<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.reads += 1;
        if self.cut.interrupts > 0 && self.r.chance(self.cut.interrupts, 16) {
            self.interrupted += 1;
            return Err(io_error(ErrorKind::Interrupted));
        }
        let stop = match self.end {
            End::Whole => self.data.len(),
            End::Eof(n) => n.min(self.data.len()),
            End::Fail(n, k) => {
                let n = n.min(self.data.len());
                if self.pos >= n && !buf.is_empty() {
                    self.failed = true;
                    return Err(io_error(k));
                }
                n
            }
            End::Once(_, _) if self.failed => self.data.len(),
            End::Once(n, k) => {
                let n = n.min(self.data.len());
                if self.pos >= n && !buf.is_empty() {
                    self.failed = true;
                    return Err(io_error(k));
                }
                n
            }
            End::Panic(n) => {
                let n = n.min(self.data.len());
                if self.pos >= n && !buf.is_empty() {
                    self.failed = true;
                    panic!("{KILLED}");
                }
                n
            }
        };
        let mut n = buf.len().min(stop - self.pos);
        if self.cut.max > 0 && n > 1 {
            n = 1 + self.r.below(n.min(self.cut.max) as u64) as usize;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Stop {
    Never,
    /// The sink takes this many bytes and fails then.
    Fail(usize, ErrorKind),
    /// The sink takes this many bytes, fails once and works when it is asked again.
    Once(usize, ErrorKind),
    /// The sink takes this many bytes and then accepts none.
    Full(usize),
    /// The process is killed when the sink has taken this many bytes.
    Panic(usize),
    /// Flushing fails.
    Flush(ErrorKind),
}

pub const KILLED: &str = "simulated crash while writing";

pub struct Sink {
    pub data: Vec<u8>,
    stop: Stop,
    cut: Cut,
    r: Rng,
    pub interrupted: u64,
    pub short: u64,
    pub stopped: bool,
    pub writes: u64,
}

impl Sink {
    pub fn new(cut: Cut, stop: Stop) -> Self {
        Sink {
            data: Vec::new(),
            stop,
            cut,
            r: Rng::new(cut.seed),
            interrupted: 0,
            short: 0,
            stopped: false,
            writes: 0,
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.writes += 1;
        if buf.is_empty() {
            return Ok(0);
        }
        if self.cut.interrupts > 0 && self.r.chance(self.cut.interrupts, 16) {
            self.interrupted += 1;
            return Err(io_error(ErrorKind::Interrupted));
        }
        let room = match self.stop {
            Stop::Never | Stop::Flush(_) => usize::MAX,
            Stop::Once(..) if self.stopped => usize::MAX,
            Stop::Once(n, _) | Stop::Fail(n, _) | Stop::Full(n) | Stop::Panic(n) => n.saturating_sub(self.data.len()),
        };
        if room == 0 {
            self.stopped = true;
            match self.stop {
                Stop::Fail(_, k) | Stop::Once(_, k) => return Err(io_error(k)),
                Stop::Panic(_) => panic!("{KILLED}"),
                _ => return Ok(0),
            }
        }
        let mut n = buf.len().min(room);
        if self.cut.max > 0 && n > 1 {
            n = 1 + self.r.below(n.min(self.cut.max) as u64) as usize;
        }
        if n < buf.len() {
            self.short += 1;
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if let Stop::Flush(k) = self.stop {
            self.stopped = true;
            return Err(io_error(k));
        }
        Ok(())
    }
}
