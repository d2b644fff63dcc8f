//! Monitored in-memory file: logs every operation and injects faults according to a plan.
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    /// Every transfer moves at most this many bytes (0 = unlimited), cycling through the list.
    None,
    /// The operation with this number fails once.
    FailOnce(u64),
    /// Every operation from this number on fails.
    FailFrom(u64),
    /// The read with this number (and every later one) delivers nothing.
    EofFrom(u64),
    /// Writes from this operation number on accept nothing (Ok(0)).
    ZeroWriteFrom(u64),
}

pub struct State {
    pub data: Vec<u8>,
    pub ops: u64,
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub flushes: u64,
    pub bytes_read: u64,
    pub bytes_written: u64,
    pub fault: Fault,
    pub fault_hits: u64,
    /// Kinds of errors injected so far, one bit each.
    pub error_kinds: u32,
    /// Maximum transfer sizes, cycled through; empty = unlimited.
    pub chunks: Vec<usize>,
    /// Every n-th transfer is interrupted (0 = never).
    pub interrupt_every: u64,
    pub interrupts: u64,
    pub writable: bool,
    kind_of_op: Vec<u8>,
    pub log_kinds: bool,
    /// Transfers since the log was last taken: kind, position, size.
    pub transfers: Option<Vec<(u8, u64, usize)>>,
    seq: u64,
}

#[derive(Clone)]
pub struct MonFile {
    pub st: Rc<RefCell<State>>,
    pos: u64,
}

impl MonFile {
    pub fn new(data: Vec<u8>) -> Self {
        Self {
            st: Rc::new(RefCell::new(State {
                data,
                ops: 0,
                reads: 0,
                writes: 0,
                seeks: 0,
                flushes: 0,
                bytes_read: 0,
                bytes_written: 0,
                fault: Fault::None,
                fault_hits: 0,
                error_kinds: 0,
                chunks: vec![],
                interrupt_every: 0,
                interrupts: 0,
                writable: true,
                kind_of_op: vec![],
                log_kinds: false,
                transfers: None,
                seq: 0,
            })),
            pos: 0,
        }
    }
    pub fn data(&self) -> Vec<u8> {
        self.st.borrow().data.clone()
    }
    pub fn ops(&self) -> u64 {
        self.st.borrow().ops
    }
    pub fn set_fault(&self, f: Fault) {
        self.st.borrow_mut().fault = f;
    }
    /// Transfers since the last call.
    pub fn take_transfers(&self) -> Vec<(u8, u64, usize)> {
        self.st.borrow_mut().transfers.replace(vec![]).unwrap_or_default()
    }
    pub fn kinds(&self) -> Vec<u8> {
        self.st.borrow().kind_of_op.clone()
    }
}

impl State {
    /// Account for one operation; returns the injected failure, if any.
    fn op(&mut self, kind: u8) -> Result<Option<usize>> {
        let n = self.ops;
        self.ops += 1;
        if self.log_kinds {
            self.kind_of_op.push(kind);
        }
        let fail = |s: &mut State| {
            s.fault_hits += 1;
            // Constant for one fault; Interrupted is left out because callers have to retry it.
            const KINDS: [ErrorKind; 11] = [
                ErrorKind::Other,
                ErrorKind::TimedOut,
                ErrorKind::UnexpectedEof,
                ErrorKind::WouldBlock,
                ErrorKind::PermissionDenied,
                ErrorKind::NotFound,
                ErrorKind::InvalidData,
                ErrorKind::InvalidInput,
                ErrorKind::BrokenPipe,
                ErrorKind::WriteZero,
                ErrorKind::Unsupported,
            ];
            let k = match s.fault {
                Fault::FailOnce(k) | Fault::FailFrom(k) => k,
                _ => 0,
            };
            let kind = KINDS[(k as usize + s.data.len() / 64) % KINDS.len()];
            s.error_kinds |= 1 << (kind as u32 % 32);
            Err(Error::new(kind, "injected I/O failure"))
        };
        match self.fault {
            Fault::FailOnce(k) if n == k => return fail(self),
            Fault::FailFrom(k) if n >= k => return fail(self),
            Fault::EofFrom(k) if kind == b'r' && n >= k => {
                self.fault_hits += 1;
                return Ok(Some(0));
            }
            Fault::ZeroWriteFrom(k) if kind == b'w' && n >= k => {
                self.fault_hits += 1;
                return Ok(Some(0));
            }
            _ => {}
        }
        Ok(None)
    }
    fn limit(&mut self, n: usize) -> Result<usize> {
        self.seq += 1;
        if self.interrupt_every != 0 && self.seq % self.interrupt_every == 0 {
            self.interrupts += 1;
            return Err(Error::from(ErrorKind::Interrupted));
        }
        if self.chunks.is_empty() {
            return Ok(n);
        }
        let c = self.chunks[(self.seq % self.chunks.len() as u64) as usize];
        Ok(if c == 0 { n } else { n.min(c) })
    }
}

impl Read for MonFile {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut s = self.st.borrow_mut();
        s.reads += 1;
        if let Some(n) = s.op(b'r')? {
            return Ok(n);
        }
        let n = s.limit(buf.len())?;
        let start = (self.pos as usize).min(s.data.len());
        let n = n.min(s.data.len() - start);
        buf[..n].copy_from_slice(&s.data[start..start + n]);
        if let Some(t) = &mut s.transfers {
            t.push((b'r', self.pos, n));
        }
        self.pos += n as u64;
        s.bytes_read += n as u64;
        Ok(n)
    }
}

impl Write for MonFile {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.st.borrow_mut();
        s.writes += 1;
        if let Some(n) = s.op(b'w')? {
            return Ok(n);
        }
        if !s.writable {
            return Err(Error::new(ErrorKind::PermissionDenied, "not opened for writing"));
        }
        let n = s.limit(buf.len())?;
        let start = self.pos as usize;
        if n > 0 && s.data.len() < start + n {
            s.data.resize(start + n, 0);
        }
        s.data[start..start + n].copy_from_slice(&buf[..n]);
        if let Some(t) = &mut s.transfers {
            t.push((b'w', self.pos, n));
        }
        self.pos += n as u64;
        s.bytes_written += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut s = self.st.borrow_mut();
        s.flushes += 1;
        s.op(b'f').map(|_| ())
    }
}

impl Seek for MonFile {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let mut s = self.st.borrow_mut();
        s.seeks += 1;
        s.op(b's')?;
        let base = match p {
            SeekFrom::Start(x) => Some(x),
            SeekFrom::Current(d) => self.pos.checked_add_signed(d),
            SeekFrom::End(d) => (s.data.len() as u64).checked_add_signed(d),
        };
        match base {
            Some(x) => {
                self.pos = x;
                Ok(x)
            }
            None => Err(Error::new(ErrorKind::InvalidInput, "seek before start")),
        }
    }
}
