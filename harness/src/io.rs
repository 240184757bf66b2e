//! In-memory files with a controllable delivery of bytes, a log of what was done to them, and
//! fault injection at the k-th I/O operation.

use crate::data::Chunk;
use std::io::{self, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum FaultKind {
    /// the operation fails once
    Once,
    /// this and every later operation of the same class fails
    Sticky,
    /// a write takes half of the bytes (a read delivers half), the next operation of the class fails
    Partial,
    /// a write reports zero bytes accepted; other operations fail once
    Zero,
    /// the operation is interrupted once (must be retried or reported)
    Interrupted,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Class {
    Read,
    Write,
    Seek,
    Flush,
    Storage,
}

/// Shared by every file and storage of a case.
#[derive(Default)]
pub struct Faults {
    pub ops: u64,
    pub at: Option<(u64, FaultKind)>,
    pub fired: bool,
    sticky: Option<Class>,
    pending: Option<Class>,
    pub fired_class: Option<Class>,
    pub fired_on: &'static str,
    /// last operation that is not part of wiping a temporary file
    pub last_main: u64,
    /// stop injecting (used by the oracle)
    pub off: bool,
    pub counted: [u64; 5],
}

pub type FaultsRef = Arc<Mutex<Faults>>;

pub enum Verdict {
    Go,
    Fail(ErrorKind),
    Half,
    Zero,
}

/// Errors differ in kind, and none of these kinds means "try again" or "this is the end".
fn hard_error(k: u64) -> ErrorKind {
    let kinds = [
        ErrorKind::Other,
        ErrorKind::UnexpectedEof,
        ErrorKind::WouldBlock,
        ErrorKind::BrokenPipe,
        ErrorKind::TimedOut,
        ErrorKind::PermissionDenied,
        ErrorKind::InvalidData,
        ErrorKind::WriteZero,
        ErrorKind::NotFound,
        ErrorKind::InvalidInput,
        ErrorKind::AlreadyExists,
        ErrorKind::OutOfMemory,
        ErrorKind::ConnectionReset,
    ];
    kinds[(k.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 32) as usize % kinds.len()]
}

impl Faults {
    pub fn new(at: Option<(u64, FaultKind)>) -> FaultsRef {
        Arc::new(Mutex::new(Faults { at, ..Default::default() }))
    }
    pub fn step(&mut self, c: Class, on: &'static str) -> Verdict {
        if self.off {
            return Verdict::Go;
        }
        let k = self.ops;
        self.ops += 1;
        self.counted[c as usize] += 1;
        if c == Class::Read || (on != "temp" && c != Class::Storage) {
            self.last_main = k;
        }
        if self.sticky == Some(c) {
            return Verdict::Fail(hard_error(self.at.map_or(0, |a| a.0)));
        }
        if self.pending == Some(c) {
            self.pending = None;
            return Verdict::Fail(hard_error(k));
        }
        if let Some((at, kind)) = self.at {
            if at == k {
                self.fired = true;
                self.fired_class = Some(c);
                self.fired_on = on;
                let hard = hard_error(k);
                return match kind {
                    FaultKind::Once => Verdict::Fail(hard),
                    FaultKind::Sticky => {
                        self.sticky = Some(c);
                        Verdict::Fail(hard)
                    }
                    FaultKind::Partial => match c {
                        Class::Read | Class::Write => {
                            self.pending = Some(c);
                            Verdict::Half
                        }
                        _ => Verdict::Fail(hard),
                    },
                    FaultKind::Zero => match c {
                        Class::Write => Verdict::Zero,
                        _ => Verdict::Fail(hard),
                    },
                    FaultKind::Interrupted => match c {
                        Class::Read | Class::Write | Class::Flush => Verdict::Fail(ErrorKind::Interrupted),
                        _ => Verdict::Fail(hard),
                    },
                };
            }
        }
        Verdict::Go
    }
}

#[derive(Clone, Debug)]
pub enum Ev {
    Write { off: u64, data: Vec<u8> },
    Flush,
}

#[derive(Default)]
pub struct FileState {
    pub data: Vec<u8>,
    pub log: Vec<Ev>,
    pub logging: bool,
    pub reads: u64,
    pub eofs: u64,
    pub written: u64,
    pub writes: u64,
}

/// A handle: position plus shared contents.
pub struct MemFile {
    pub st: Arc<Mutex<FileState>>,
    pub pos: u64,
    pub rchunk: Chunk,
    pub wchunk: Chunk,
    pub faults: Option<FaultsRef>,
    pub tag: &'static str,
    k: u64,
}

impl MemFile {
    pub fn new(data: Vec<u8>) -> Self {
        Self::on(Arc::new(Mutex::new(FileState { data, ..Default::default() })))
    }
    pub fn on(st: Arc<Mutex<FileState>>) -> Self {
        MemFile { st, pos: 0, rchunk: Chunk::Full, wchunk: Chunk::Full, faults: None, tag: "file", k: 0 }
    }
    pub fn chunks(mut self, r: &Chunk, w: &Chunk) -> Self {
        self.rchunk = r.clone();
        self.wchunk = w.clone();
        self
    }
    pub fn faults(mut self, f: &FaultsRef) -> Self {
        self.faults = Some(f.clone());
        self
    }
    pub fn logged(self) -> Self {
        self.st.lock().unwrap().logging = true;
        self
    }
    pub fn contents(&self) -> Vec<u8> {
        self.st.lock().unwrap().data.clone()
    }
    pub fn cell(self) -> std::cell::RefCell<MemFile> {
        std::cell::RefCell::new(self)
    }
    fn step(&self, c: Class) -> io::Result<Verdict> {
        if let Some(f) = &self.faults {
            let v = f.lock().unwrap().step(c, self.tag);
            if let Verdict::Fail(k) = v {
                return Err(io::Error::new(k, "injected fault"));
            }
            return Ok(v);
        }
        Ok(Verdict::Go)
    }
}

impl Read for MemFile {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let v = self.step(Class::Read)?;
        let mut st = self.st.lock().unwrap();
        st.reads += 1;
        let pos = (self.pos as usize).min(st.data.len());
        let avail = (st.data.len() - pos).min(buf.len());
        if avail == 0 && !buf.is_empty() {
            st.eofs += 1;
            assert!(st.eofs < 100_000, "reads on and on at the end of the file");
        }
        self.k += 1;
        let mut n = self.rchunk.next(self.k, avail);
        if let Verdict::Half = v {
            n = if n > 1 { n / 2 } else { n };
        }
        buf[..n].copy_from_slice(&st.data[pos..pos + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Write for MemFile {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let v = self.step(Class::Write)?;
        if let Verdict::Zero = v {
            return Ok(0);
        }
        let mut st = self.st.lock().unwrap();
        if st.written > 640 << 20 {
            return Err(io::Error::other("writes without end"));
        }
        st.writes += 1;
        self.k += 1;
        let mut n = self.wchunk.next(self.k, buf.len());
        if let Verdict::Half = v {
            n = if n > 1 { n / 2 } else { n };
        }
        if n == 0 {
            return Ok(0);
        }
        st.written += n as u64;
        let pos = self.pos as usize;
        if st.data.len() < pos + n {
            st.data.resize(pos + n, 0);
        }
        st.data[pos..pos + n].copy_from_slice(&buf[..n]);
        if st.logging {
            let data = buf[..n].to_vec();
            st.log.push(Ev::Write { off: pos as u64, data });
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.step(Class::Flush)?;
        let mut st = self.st.lock().unwrap();
        if st.logging {
            st.log.push(Ev::Flush);
        }
        Ok(())
    }
}

impl Seek for MemFile {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.step(Class::Seek)?;
        let len = self.st.lock().unwrap().data.len() as i64;
        let n = match p {
            SeekFrom::Start(n) => n as i64,
            SeekFrom::End(d) => len + d,
            SeekFrom::Current(d) => self.pos as i64 + d,
        };
        if n < 0 {
            return Err(io::Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}
