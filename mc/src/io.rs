//! Instrumented sources and destinations.
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub enum Op {
    Write(u64, Vec<u8>),
    Seek(u64),
    Flush,
    Read(u64, usize),
}

pub type Hook = Arc<dyn Fn(&'static str, usize) -> Verdict + Send + Sync>;

/// What happens to one I/O operation
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Verdict {
    Normal,
    /// transfers at most that many bytes (at least one when there are any)
    Short(usize),
    Interrupted,
    Error,
    /// transfers `n` bytes of a write and then reports an error
    PartialError(usize),
    /// reports that nothing could be written (`Ok(0)`)
    Zero,
}

pub struct Disk {
    pub cur: Cursor<Vec<u8>>,
    pub log: Arc<Mutex<Vec<Op>>>,
    pub hook: Option<Hook>,
    pub logging: bool,
    /// absolute position of the first byte of `cur`
    pub base: u64,
    /// the position, when it lies before `base`
    pub under: Option<u64>,
    /// what was read or written before `base`
    pub trespass: Arc<Mutex<Vec<String>>>,
}

impl Disk {
    pub fn new(data: Vec<u8>, pos: u64) -> Disk {
        let mut cur = Cursor::new(data);
        cur.set_position(pos);
        Disk {
            cur,
            log: Default::default(),
            hook: None,
            logging: false,
            base: 0,
            under: None,
            trespass: Default::default(),
        }
    }
    /// A window on a larger file, positioned at its beginning
    pub fn window(data: Vec<u8>, base: u64) -> Disk {
        let mut d = Disk::new(data, 0);
        d.base = base;
        d
    }
    pub fn position(&self) -> u64 {
        self.under.unwrap_or(self.base + self.cur.position())
    }
    pub fn logged(mut self) -> Disk {
        self.logging = true;
        self
    }
    pub fn hooked(mut self, h: Hook) -> Disk {
        self.hook = Some(h);
        self
    }
    fn ask(&self, what: &'static str, n: usize) -> Verdict {
        match &self.hook {
            Some(h) => h(what, n),
            None => Verdict::Normal,
        }
    }
    fn log(&self, o: Op) {
        if self.logging {
            self.log.lock().unwrap().push(o);
        }
    }
}

fn injected() -> io::Error {
    io::Error::new(io::ErrorKind::Other, "injected fault")
}

impl Read for Disk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        rayon_core::mc::invisible(|| self.read_(buf))
    }
}

impl Write for Disk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        rayon_core::mc::invisible(|| self.write_(buf))
    }
    fn flush(&mut self) -> io::Result<()> {
        match self.ask("flush", 0) {
            Verdict::Error | Verdict::PartialError(_) => return Err(injected()),
            _ => {}
        }
        self.log(Op::Flush);
        Ok(())
    }
}

impl Seek for Disk {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        rayon_core::mc::invisible(|| self.seek_(p))
    }
}

impl Disk {
    fn read_(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = match self.ask("read", buf.len()) {
            Verdict::Short(n) => buf.len().min(n.max(1)),
            Verdict::Interrupted => return Err(io::ErrorKind::Interrupted.into()),
            Verdict::Error | Verdict::PartialError(_) => return Err(injected()),
            Verdict::Normal | Verdict::Zero => buf.len(),
        };
        let at = self.position();
        if let (Some(u), true) = (self.under, n > 0) {
            self.trespass.lock().unwrap().push(format!("{} bytes read at {}", n, u));
            buf[..n].fill(0x77);
            return Ok(n);
        }
        let r = self.cur.read(&mut buf[..n])?;
        self.log(Op::Read(at, r));
        Ok(r)
    }
    fn write_(&mut self, buf: &[u8]) -> io::Result<usize> {
        let mut err = false;
        let n = match self.ask("write", buf.len()) {
            Verdict::Short(n) => buf.len().min(n.max(1)),
            Verdict::Interrupted => return Err(io::ErrorKind::Interrupted.into()),
            Verdict::Error => return Err(injected()),
            Verdict::PartialError(n) => {
                err = true;
                buf.len().min(n)
            }
            Verdict::Zero => return Ok(0),
            Verdict::Normal => buf.len(),
        };
        let at = self.position();
        if let (Some(u), true) = (self.under, n > 0) {
            self.trespass.lock().unwrap().push(format!("{} bytes written at {}", n, u));
            return Ok(n);
        }
        let n = self.cur.write(&buf[..n])?;
        self.log(Op::Write(at, buf[..n].to_vec()));
        if err {
            return Err(injected());
        }
        Ok(n)
    }
    fn seek_(&mut self, p: SeekFrom) -> io::Result<u64> {
        let what = match p {
            SeekFrom::Start(_) => "seek-start",
            SeekFrom::End(_) => "seek-end",
            SeekFrom::Current(0) => "tell",
            SeekFrom::Current(_) => "seek-current",
        };
        match self.ask(what, 0) {
            Verdict::Error | Verdict::PartialError(_) => return Err(injected()),
            _ => {}
        }
        let to = match p {
            SeekFrom::Start(p) => p as i128,
            SeekFrom::End(o) => self.base as i128 + self.cur.get_ref().len() as i128 + o as i128,
            SeekFrom::Current(o) => self.position() as i128 + o as i128,
        };
        if to < 0 || to > u64::MAX as i128 {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        let r = to as u64;
        if r < self.base {
            self.under = Some(r);
        } else {
            self.under = None;
            self.cur.set_position(r - self.base);
        }
        self.log(Op::Seek(r));
        Ok(r)
    }
}
