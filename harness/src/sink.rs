//! The `io::Write` that Writers under test write into.

use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fault {
    /// A write call ends here with a short count.
    Short,
    /// The write call at this position fails with `Interrupted`.
    Interrupted,
    /// So do this many calls in a row.
    Interrupts(u16),
    /// The write call at this position fails with this error.
    Error(u8),
    /// The write call at this position accepts nothing (a full sink).
    Full,
}

pub const ERROR_KINDS: [io::ErrorKind; 24] = [
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::Other,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionRefused,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AddrNotAvailable,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::InvalidData,
    io::ErrorKind::WriteZero,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::StorageFull,
    io::ErrorKind::ResourceBusy,
    io::ErrorKind::HostUnreachable,
    io::ErrorKind::FileTooLarge,
    io::ErrorKind::NotSeekable,
];
/// Errors of the operating system, which have no text of their own.
const OS_ERRORS: [i32; 4] = [5, 11, 28, 32];
pub const ERRORS: u8 = 28;

/// A hard error, to recognise it by.
#[derive(Clone, Debug)]
pub struct Raised {
    pub kind: io::ErrorKind,
    os: Option<i32>,
    /// The number in an `Injected`.
    number: Option<usize>,
}

/// What some errors of the sink carry.
#[derive(Debug)]
struct Injected(usize);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Injected {}

impl Raised {
    /// Is `e` that very error?
    pub fn is(&self, e: &io::Error) -> bool {
        let number = e.get_ref().and_then(|x| x.downcast_ref::<Injected>()).map(|x| x.0);
        // A full sink returns no error of its own.
        let full = self.os.is_none() && self.number.is_none();
        e.kind() == self.kind && (full || (number == self.number && e.raw_os_error() == self.os))
    }
}

#[derive(Default, Debug)]
pub struct SinkState {
    pub data: Vec<u8>,
    /// Faults by byte position, in increasing position order.
    pub faults: Vec<(usize, Fault)>,
    pub next: usize,
    /// Hard errors given out so far.
    pub raised: Vec<Raised>,
    /// Bytes received after the first hard error.
    pub after_error: usize,
    pub shorts: usize,
    pub interrupts: usize,
    /// Count what comes in instead of keeping it.
    pub skip: bool,
    pub skipped: usize,
    /// Most bytes that one call accepts, if not 0.
    pub chunk: usize,
    /// Interruptions still to come at this position.
    pub interrupting: u16,
}

#[derive(Clone, Default)]
pub struct Sink(pub Rc<RefCell<SinkState>>);

impl Sink {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_faults(faults: Vec<(usize, Fault)>) -> Self {
        let s = Self::default();
        s.0.borrow_mut().faults = faults;
        s
    }
    pub fn len(&self) -> usize {
        let s = self.0.borrow();
        s.skipped + s.data.len()
    }
    /// Everything received but what was skipped.
    pub fn bytes(&self) -> Vec<u8> {
        self.0.borrow().data.clone()
    }
}

impl io::Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut s = self.0.borrow_mut();
        if buf.is_empty() {
            return Ok(0);
        }
        if s.skip {
            s.skipped += buf.len();
            return Ok(buf.len());
        }
        let pos = s.data.len();
        let mut limit = buf.len();
        if s.chunk > 0 && limit > s.chunk {
            limit = s.chunk;
            s.shorts += 1;
        }
        if s.interrupting > 0 {
            s.interrupting -= 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        while s.next < s.faults.len() {
            let (at, f) = s.faults[s.next];
            if at > pos {
                if at - pos < limit {
                    limit = at - pos;
                }
                break;
            }
            s.next += 1;
            match f {
                Fault::Short => {
                    s.shorts += 1;
                    continue;
                }
                Fault::Interrupted => {
                    s.interrupts += 1;
                    return Err(io::ErrorKind::Interrupted.into());
                }
                Fault::Interrupts(n) => {
                    s.interrupts += 1;
                    s.interrupting = n;
                    return Err(io::ErrorKind::Interrupted.into());
                }
                Fault::Error(k) => {
                    let k = (k % ERRORS) as usize;
                    if k >= ERROR_KINDS.len() {
                        let e = io::Error::from_raw_os_error(OS_ERRORS[k - ERROR_KINDS.len()]);
                        s.raised.push(Raised { kind: e.kind(), os: e.raw_os_error(), number: None });
                        return Err(e);
                    }
                    let kind = ERROR_KINDS[k];
                    let number = 1000 * s.next + pos;
                    s.raised.push(Raised { kind, os: None, number: Some(number) });
                    return Err(io::Error::new(kind, Injected(number)));
                }
                Fault::Full => {
                    s.raised.push(Raised { kind: io::ErrorKind::WriteZero, os: None, number: None });
                    return Ok(0);
                }
            }
        }
        if !s.raised.is_empty() {
            s.after_error += limit;
        }
        s.data.extend_from_slice(&buf[..limit]);
        Ok(limit)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
