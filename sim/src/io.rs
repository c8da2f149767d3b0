//! Simulated byte sources and sinks: the seam between the library and the outside.

use crate::rt::World;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

/// Errors a real stream can report, other than the ones with a meaning of their own
/// (Interrupted is to be retried, UnexpectedEof is the end of the data)
pub const HARD: [ErrorKind; 18] = [
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::BrokenPipe,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::NotConnected,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::OutOfMemory,
    ErrorKind::NotFound,
    ErrorKind::Other,
    ErrorKind::InvalidInput,
    ErrorKind::ConnectionRefused,
    ErrorKind::Unsupported,
    ErrorKind::StorageFull,
    ErrorKind::NetworkDown,
    ErrorKind::HostUnreachable,
    ErrorKind::AlreadyExists,
];

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// Chances per mille
    pub short: u64,
    pub intr: u64,
    /// The n-th operation fails
    pub fail_at: Option<(u64, ErrorKind)>,
    /// ... and all that follow
    pub stay_failed: bool,
    /// Delay of an operation, at most, in us
    pub delay: u64,
}

impl Plan {
    pub fn none() -> Self {
        Self::default()
    }

    /// Legal but awkward: short transfers, interrupted calls. Each run has its own mix.
    pub fn awkward(w: &World) -> Self {
        Plan {
            short: w.pick(&[0, 100, 400, 1000]),
            intr: w.pick(&[0, 0, 50, 300]),
            ..Self::default()
        }
    }
}

/// A source over data that is all there
pub struct Source {
    pub w: World,
    pub data: Vec<u8>,
    pub pos: u64,
    pub plan: Plan,
    pub ops: u64,
    pub cap: u64,
    pub reads: u64,
    pub seeks: u64,
    /// Where the injected failure landed
    pub failed: Option<(&'static str, ErrorKind)>,
    /// Furthest byte that was handed out
    pub high: u64,
    pub over_cap: bool,
}

impl Source {
    pub fn new(w: &World, data: &[u8], plan: Plan) -> Self {
        Source {
            w: w.clone(),
            data: data.to_vec(),
            pos: 0,
            plan,
            ops: 0,
            cap: 2000 + 64 * data.len() as u64,
            reads: 0,
            seeks: 0,
            failed: None,
            high: 0,
            over_cap: false,
        }
    }

    fn op(&mut self, what: &'static str) -> Result<()> {
        self.w.yield_point();
        let n = self.ops;
        self.ops += 1;
        if self.ops > self.cap {
            self.over_cap = true;
            return Err(Error::new(ErrorKind::Other, "too many operations"));
        }
        if let Some((at, kind)) = self.plan.fail_at {
            if n == at || (self.plan.stay_failed && n > at) {
                if self.failed.is_none() {
                    self.failed = Some((what, kind));
                }
                let key = if what == "read" { "fault.read_error" } else { "fault.seek_error" };
                self.w.fault(key, n);
                return Err(Error::from(kind));
            }
        }
        Ok(())
    }
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.op("read")?;
        self.reads += 1;
        if self.w.chance(self.plan.intr, 1000) {
            self.w.fault("fault.read_interrupted", self.ops);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let start = (self.pos as usize).min(self.data.len());
        let mut n = buf.len().min(self.data.len() - start);
        if n > 1 && self.w.chance(self.plan.short, 1000) {
            n = 1 + self.w.draw(n as u64 - 1) as usize;
            self.w.fault("fault.short_read", n as u64);
        }
        buf[..n].copy_from_slice(&self.data[start..start + n]);
        self.pos += n as u64;
        self.high = self.high.max(self.pos);
        Ok(n)
    }
}

fn seek_to(pos: SeekFrom, cur: u64, end: Option<u64>) -> Result<u64> {
    let bad = || Error::from(ErrorKind::InvalidInput);
    match pos {
        SeekFrom::Start(p) => Ok(p),
        SeekFrom::Current(d) => cur.checked_add_signed(d).ok_or_else(bad),
        SeekFrom::End(d) => end.ok_or_else(bad)?.checked_add_signed(d).ok_or_else(bad),
    }
}

impl Seek for Source {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.op("seek")?;
        self.seeks += 1;
        self.pos = seek_to(pos, self.pos, Some(self.data.len() as u64))?;
        Ok(self.pos)
    }
}

/// A sink that keeps what it accepted
pub struct Sink {
    pub w: World,
    pub data: Vec<u8>,
    pub plan: Plan,
    pub ops: u64,
    pub cap: u64,
    /// Room left before the sink is full, and how it says so
    pub room: Option<u64>,
    pub full: Full,
    pub failed: Option<ErrorKind>,
    pub over_cap: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Full {
    /// Accepts 0 bytes
    Zero,
    /// Fails with this
    Kind(ErrorKind),
}

impl Sink {
    pub fn new(w: &World, plan: Plan) -> Self {
        Sink {
            w: w.clone(),
            data: vec![],
            plan,
            ops: 0,
            cap: 8_000_000,
            room: None,
            full: Full::Zero,
            failed: None,
            over_cap: false,
        }
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.w.yield_point();
        let op = self.ops;
        self.ops += 1;
        if self.ops > self.cap {
            self.over_cap = true;
            return Err(Error::new(ErrorKind::Other, "too many operations"));
        }
        if let Some((at, kind)) = self.plan.fail_at {
            if op == at || (self.plan.stay_failed && op > at) {
                if self.failed.is_none() {
                    self.failed = Some(kind);
                }
                self.w.fault("fault.write_error", op);
                return Err(Error::from(kind));
            }
        }
        if self.w.chance(self.plan.intr, 1000) {
            self.w.fault("fault.write_interrupted", op);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if let Some(room) = self.room {
            if room == 0 && n > 0 {
                self.w.fault("fault.sink_full", op);
                return match self.full {
                    Full::Zero => {
                        self.failed = Some(ErrorKind::WriteZero);
                        Ok(0)
                    }
                    Full::Kind(kind) => {
                        self.failed = Some(kind);
                        Err(Error::from(kind))
                    }
                };
            }
            n = n.min(room as usize);
        }
        if n > 1 && self.w.chance(self.plan.short, 1000) {
            n = 1 + self.w.draw(n as u64 - 1) as usize;
            self.w.fault("fault.short_write", n as u64);
        }
        self.data.extend_from_slice(&buf[..n]);
        if let Some(room) = &mut self.room {
            *room -= n as u64;
        }
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for Sink {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        match pos {
            SeekFrom::Current(0) => Ok(self.data.len() as u64),
            _ => Err(Error::from(ErrorKind::Unsupported)),
        }
    }
}

// -------------------------------------------------------------------- pipes between tasks

#[derive(Default)]
pub struct PipeState {
    /// All that arrived so far: a receiver may go back in it
    pub arrived: Vec<u8>,
    pub closed: bool,
    pub cut: Option<ErrorKind>,
    waiting: Vec<usize>,
    last_arrival: u64,
    pub sent: u64,
}

/// One direction of a connection: fragments arrive in order, each after a delay of its own
#[derive(Clone)]
pub struct Pipe {
    pub w: World,
    pub st: Arc<Mutex<PipeState>>,
    pub max_delay: u64,
}

impl Pipe {
    pub fn new(w: &World, max_delay: u64) -> Self {
        Pipe { w: w.clone(), st: Arc::default(), max_delay }
    }

    fn schedule(&self, f: impl FnOnce(&mut PipeState) + Send + 'static) {
        let delay = self.w.draw(self.max_delay + 1);
        let st = self.st.clone();
        let mut core = self.w.core();
        let when = {
            let mut s = self.st.lock().unwrap();
            let when = (core.now + delay).max(s.last_arrival);
            s.last_arrival = when;
            when
        };
        core.at(
            when,
            Box::new(move |core| {
                let mut s = st.lock().unwrap();
                f(&mut s);
                for t in std::mem::take(&mut s.waiting) {
                    core.wake(t);
                }
            }),
        );
    }

    pub fn send(&self, data: &[u8]) {
        self.st.lock().unwrap().sent += data.len() as u64;
        let data = data.to_vec();
        self.schedule(move |s| s.arrived.extend_from_slice(&data));
    }

    pub fn close(&self) {
        self.schedule(|s| s.closed = true);
    }

    pub fn cut(&self, kind: ErrorKind) {
        self.schedule(move |s| s.cut = Some(kind));
    }
}

pub struct PipeReader {
    pub p: Pipe,
    pub pos: u64,
    pub plan: Plan,
    pub ops: u64,
    pub blocked: u64,
    /// It has reported that the connection is broken
    pub saw_cut: bool,
}

impl PipeReader {
    pub fn new(p: &Pipe, plan: Plan) -> Self {
        PipeReader { p: p.clone(), pos: 0, plan, ops: 0, blocked: 0, saw_cut: false }
    }
}

impl Read for PipeReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let w = self.p.w.clone();
        w.yield_point();
        self.ops += 1;
        if w.aborted().is_some() {
            return Err(Error::from(ErrorKind::TimedOut));
        }
        if w.chance(self.plan.intr, 1000) {
            w.fault("fault.read_interrupted", self.ops);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if buf.is_empty() {
            return Ok(0);
        }
        loop {
            {
                let mut s = self.p.st.lock().unwrap();
                let start = self.pos as usize;
                if start < s.arrived.len() {
                    let mut n = buf.len().min(s.arrived.len() - start);
                    if n < buf.len() {
                        w.fault("fault.fragmented", n as u64);
                    }
                    if n > 1 && w.chance(self.plan.short, 1000) {
                        n = 1 + w.draw(n as u64 - 1) as usize;
                        w.fault("fault.short_read", n as u64);
                    }
                    buf[..n].copy_from_slice(&s.arrived[start..start + n]);
                    self.pos += n as u64;
                    return Ok(n);
                }
                if let Some(kind) = s.cut {
                    self.saw_cut = true;
                    return Err(Error::from(kind));
                }
                if s.closed {
                    return Ok(0);
                }
                let me = World::task().expect("a pipe is read by a task");
                s.waiting.push(me);
            }
            self.blocked += 1;
            w.mark("wait", self.pos, 0);
            if w.block().is_err() {
                return Err(Error::from(ErrorKind::TimedOut));
            }
        }
    }
}

impl Seek for PipeReader {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.p.w.yield_point();
        self.pos = seek_to(pos, self.pos, None)?;
        Ok(self.pos)
    }
}

pub struct PipeWriter {
    pub p: Pipe,
    pub plan: Plan,
    pub ops: u64,
}

impl PipeWriter {
    pub fn new(p: &Pipe, plan: Plan) -> Self {
        PipeWriter { p: p.clone(), plan, ops: 0 }
    }
}

impl Write for PipeWriter {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let w = self.p.w.clone();
        w.yield_point();
        self.ops += 1;
        if w.aborted().is_some() {
            return Err(Error::from(ErrorKind::TimedOut));
        }
        if w.chance(self.plan.intr, 1000) {
            w.fault("fault.write_interrupted", self.ops);
            return Err(Error::from(ErrorKind::Interrupted));
        }
        let mut n = buf.len();
        if n > 1 && w.chance(self.plan.short, 1000) {
            n = 1 + w.draw(n as u64 - 1) as usize;
            w.fault("fault.short_write", n as u64);
        }
        if n > 0 {
            self.p.send(&buf[..n]);
        }
        Ok(n)
    }

    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Seek for PipeWriter {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        match pos {
            SeekFrom::Current(0) => Ok(self.p.st.lock().unwrap().sent),
            _ => Err(Error::from(ErrorKind::Unsupported)),
        }
    }
}
