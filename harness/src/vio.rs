//! Instrumented streams: scripted delivery, numbered operations, injected faults, operation logs.
use crate::rng::Rng;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// the operation fails with this kind, once
    Once(ErrorKind),
    /// this and every later operation fails
    Sticky(ErrorKind),
    /// the operation transfers nothing (end of file / no space), from now on
    Zero,
}

pub const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::UnexpectedEof,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
];

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Write(u64, Vec<u8>),
    Seek(u64),
    Flush,
    Read(u64, usize),
}

#[derive(Default)]
pub struct Ctl {
    pub ops: u64,
    pub fault_at: Option<(u64, Fault)>,
    pub fired: u64,
    pub log: Option<Vec<Op>>,
    /// every transfer moves at most a random number of bytes
    pub short: Option<(Rng, usize)>,
    /// one in n operations is interrupted first
    pub eintr: Option<(Rng, u64)>,
    pub interrupts: u64,
    pub shorts: u64,
}
pub type CtlRef = Rc<RefCell<Ctl>>;
pub fn ctl() -> CtlRef {
    Rc::new(RefCell::new(Ctl::default()))
}

/// A seekable in-memory stream under control of `ctl`.
pub struct Vio {
    pub data: Vec<u8>,
    pub pos: u64,
    pub c: CtlRef,
}
impl Vio {
    pub fn new(data: Vec<u8>, c: &CtlRef) -> Vio {
        Vio { data, pos: 0, c: c.clone() }
    }
    /// Ok(true): the operation must transfer nothing
    fn gate(&mut self, can_interrupt: bool) -> Result<bool> {
        let mut c = self.c.borrow_mut();
        if can_interrupt {
            let hit = match &mut c.eintr {
                Some((r, n)) => { let n = *n; r.chance(1, n) }
                None => false,
            };
            if hit {
                c.interrupts += 1;
                return Err(Error::new(ErrorKind::Interrupted, "injected interrupt"));
            }
        }
        let k = c.ops;
        c.ops += 1;
        if let Some((at, f)) = c.fault_at {
            let hit = match f {
                Fault::Once(_) => k == at,
                _ => k >= at,
            };
            if hit {
                c.fired += 1;
                return match f {
                    Fault::Once(e) | Fault::Sticky(e) => Err(Error::new(e, "injected fault")),
                    Fault::Zero => Ok(true),
                };
            }
        }
        Ok(false)
    }
    fn len(&mut self, n: usize) -> usize {
        let mut c = self.c.borrow_mut();
        let m = match &mut c.short {
            Some((r, max)) if n > 0 => {
                let max = *max;
                (1 + r.usize(max)).min(n)
            }
            _ => n,
        };
        if m < n {
            c.shorts += 1;
        }
        m
    }
    fn record(&mut self, f: impl FnOnce() -> Op) {
        if let Some(l) = &mut self.c.borrow_mut().log {
            l.push(f());
        }
    }
}
impl Read for Vio {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        if self.gate(true)? {
            return Ok(0);
        }
        let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let n = self.len(avail.min(buf.len()));
        let p = self.pos;
        buf[..n].copy_from_slice(&self.data[p.min(self.data.len() as u64) as usize..][..n]);
        self.record(|| Op::Read(p, n));
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Vio {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        if self.gate(true)? {
            return Ok(0);
        }
        let n = self.len(buf.len());
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.record(|| Op::Write(p as u64, buf[..n].to_vec()));
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        self.gate(false)?;
        self.record(|| Op::Flush);
        Ok(())
    }
}
impl Seek for Vio {
    fn seek(&mut self, s: SeekFrom) -> Result<u64> {
        self.gate(false)?;
        let np = match s {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if np < 0 || np > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "seek out of range"));
        }
        self.pos = np as u64;
        let p = self.pos;
        self.record(|| Op::Seek(p));
        Ok(p)
    }
}
