//! Streams with scripted behaviour: short transfers, interruptions, an error at a chosen call,
//! forward-only access, and a log of what was asked of them.
use deku::no_std_io::{ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// the k-th call (0-based, counting reads, writes and seeks) fails with this kind
    At(u64, ErrorKind),
    /// the k-th call and all later ones
    From(u64, ErrorKind),
}

/// How many bytes each successive transfer may move (cycled); 0 means Interrupted.
#[derive(Clone, Debug, Default)]
pub struct Chunks(pub Vec<usize>);

#[derive(Clone, Debug)]
pub struct RStream {
    pub data: Vec<u8>,
    pub pos: u64,
    pub chunks: Vec<usize>,
    pub ci: usize,
    pub calls: u64,
    pub fault: Fault,
    pub faulted: bool,
    /// a read or write failed, not only a seek
    pub failed_transfer: bool,
    pub delivered: u64,
    pub seekable: bool,
    /// only seeks that stay where they are, as `NoSeek` promises
    pub forward: bool,
    /// a seek that did move
    pub moved: bool,
    /// where the stream was before it was asked for its end
    pub asked: Option<u64>,
    /// the end was looked at and the position restored at once
    pub probed: bool,
    pub zero_reads: u64,
}
impl RStream {
    pub fn new(data: &[u8]) -> Self {
        RStream {
            data: data.to_vec(),
            pos: 0,
            chunks: vec![],
            ci: 0,
            calls: 0,
            fault: Fault::None,
            faulted: false,
            failed_transfer: false,
            delivered: 0,
            seekable: true,
            forward: false,
            moved: false,
            asked: None,
            probed: false,
            zero_reads: 0,
        }
    }
    fn step(&mut self, transfer: bool) -> Result<()> {
        let c = self.calls;
        self.calls += 1;
        let hit = match self.fault {
            Fault::None => None,
            Fault::At(k, e) => (c == k).then_some(e),
            Fault::From(k, e) => (c >= k).then_some(e),
        };
        if let Some(e) = hit {
            self.faulted = true;
            self.failed_transfer |= transfer;
            return Err(e.into());
        }
        Ok(())
    }
    /// whether a seek was made that only a seekable stream can grant
    pub fn sought(&self) -> bool {
        self.moved || self.asked.is_some()
    }
}
impl Read for RStream {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.moved |= self.asked.take().is_some();
        self.step(true)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.chunks.is_empty() {
            let c = self.chunks[self.ci % self.chunks.len()];
            self.ci += 1;
            if c == 0 {
                return Err(ErrorKind::Interrupted.into());
            }
            n = n.min(c);
        }
        let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        n = n.min(avail);
        if n == 0 {
            self.zero_reads += 1;
            assert!(self.zero_reads < 1_000_000, "reader asked for more input without end");
        } else {
            let p = self.pos as usize;
            buf[..n].copy_from_slice(&self.data[p..p + n]);
            self.pos += n as u64;
            self.delivered += n as u64;
        }
        Ok(n)
    }
}
fn seek_to(pos: SeekFrom, cur: u64, len: u64) -> Result<u64> {
    let (b, o) = match pos {
        SeekFrom::Start(n) => return Ok(n),
        SeekFrom::Current(o) => (cur, o),
        SeekFrom::End(o) => (len, o),
    };
    b.checked_add_signed(o).ok_or_else(|| ErrorKind::InvalidInput.into())
}
impl Seek for RStream {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.step(false)?;
        if !self.seekable {
            return Err(ErrorKind::Unsupported.into());
        }
        if self.forward && !stays(pos, self.pos) {
            self.moved = true;
            return Err(ErrorKind::Other.into());
        }
        match (self.asked.take(), pos) {
            (Some(p), SeekFrom::Start(q)) if p == q => self.probed = true,
            (None, SeekFrom::End(0)) => self.asked = Some(self.pos),
            (asked, _) => self.moved |= asked.is_some() || !stays(pos, self.pos),
        }
        let n = seek_to(pos, self.pos, self.data.len() as u64)?;
        self.pos = n;
        Ok(n)
    }
}
/// Seeks an input without positions can grant.
fn stays(pos: SeekFrom, cur: u64) -> bool {
    match pos {
        SeekFrom::Start(n) => n == cur,
        SeekFrom::Current(n) => n == 0,
        SeekFrom::End(_) => false,
    }
}

#[derive(Clone, Debug)]
pub struct WStream {
    pub data: Vec<u8>,
    pub pos: u64,
    pub chunks: Vec<usize>,
    pub ci: usize,
    pub calls: u64,
    pub fault: Fault,
    pub faulted: bool,
    /// a read or write failed, not only a seek
    pub failed_transfer: bool,
    pub cap: Option<usize>,
    /// only seeks that stay where they are, as `NoSeek` promises
    pub forward: bool,
    /// a seek that did move, or looked at the end
    pub moved: bool,
}
impl WStream {
    pub fn new() -> Self {
        WStream { data: vec![], pos: 0, chunks: vec![], ci: 0, calls: 0, fault: Fault::None, faulted: false, failed_transfer: false, cap: None, forward: false, moved: false }
    }
    fn step(&mut self, transfer: bool) -> Result<()> {
        let c = self.calls;
        self.calls += 1;
        let hit = match self.fault {
            Fault::None => None,
            Fault::At(k, e) => (c == k).then_some(e),
            Fault::From(k, e) => (c >= k).then_some(e),
        };
        if let Some(e) = hit {
            self.faulted = true;
            self.failed_transfer |= transfer;
            return Err(e.into());
        }
        Ok(())
    }
}
impl Default for WStream {
    fn default() -> Self {
        Self::new()
    }
}
impl Write for WStream {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.step(true)?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len();
        if !self.chunks.is_empty() {
            let c = self.chunks[self.ci % self.chunks.len()];
            self.ci += 1;
            if c == 0 {
                return Err(ErrorKind::Interrupted.into());
            }
            n = n.min(c);
        }
        if let Some(cap) = self.cap {
            n = n.min(cap.saturating_sub(self.pos as usize));
        }
        if self.pos > 1 << 24 {
            return Err(ErrorKind::InvalidInput.into());
        }
        let p = self.pos as usize;
        if self.data.len() < p + n {
            self.data.resize(p + n, 0);
        }
        self.data[p..p + n].copy_from_slice(&buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Seek for WStream {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        self.step(false)?;
        if !stays(pos, self.pos) {
            self.moved = true;
            if self.forward {
                return Err(ErrorKind::Other.into());
            }
        }
        let n = seek_to(pos, self.pos, self.data.len() as u64)?;
        self.pos = n;
        Ok(n)
    }
}

/// An input that cannot seek.
pub struct OnlyRead(pub RStream);
impl Read for OnlyRead {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.0.read(buf)
    }
}
/// An output that cannot seek.
pub struct OnlyWrite(pub WStream);
impl Write for OnlyWrite {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.0.write(buf)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
