//! Readers: the same bytes served in different ways.
use std::io::{Read, Result, Seek, SeekFrom};
use std::pin::Pin;
use std::task::{Context, Poll};

/// Serves short reads (1 to `max` bytes at a time) and, now and then, an `Interrupted` error
#[derive(Debug, Clone)]
pub struct Short {
    pub data: Vec<u8>,
    pub pos: u64,
    pub max: usize,
    pub tick: u64,
}

impl Short {
    pub fn new(data: &[u8], max: usize) -> Short {
        Short { data: data.to_vec(), pos: 0, max, tick: 0 }
    }
}

impl Read for Short {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.tick += 1;
        if self.tick % 7 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let s = (self.pos as usize).min(self.data.len());
        let n = buf.len().min(self.data.len() - s).min(1 + (self.tick as usize * 5) % self.max);
        buf[..n].copy_from_slice(&self.data[s..s + n]);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Short {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.data.len() as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// Asynchronous reader, always ready, that serves at most `max` bytes at a time
#[derive(Debug)]
pub struct Chunks {
    pub data: Vec<u8>,
    pub pos: usize,
    pub max: usize,
    /// not ready every other time
    pub pending: bool,
    pub flip: bool,
}

impl futures::AsyncRead for Chunks {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        if self.pending {
            self.flip = !self.flip;
            if self.flip {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
        }
        let n = buf.len().min(self.data.len() - self.pos).min(self.max);
        let p = self.pos;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n;
        Poll::Ready(Ok(n))
    }
}

/// A large file most of which is not stored: `parts` (position, bytes), the rest is computed from the position
#[derive(Debug, Clone)]
pub struct Sparse {
    pub parts: Vec<(u64, Vec<u8>)>,
    pub len: u64,
    pub pos: u64,
}

impl Sparse {
    pub fn new() -> Sparse {
        Sparse { parts: vec![], len: 0, pos: 0 }
    }
    /// Adds stored bytes at the end
    pub fn push(&mut self, b: &[u8]) {
        self.parts.push((self.len, b.to_vec()));
        self.len += b.len() as u64;
    }
    /// Adds n bytes that are not stored
    pub fn skip(&mut self, n: u64) {
        self.len += n;
    }
    /// The bytes of a range; stored parts given later hide the earlier ones
    pub fn part(&self, at: u64, n: usize) -> Vec<u8> {
        let mut v: Vec<u8> = (at..at + n as u64).map(|p| (p ^ (p >> 7) ^ (p >> 16) ^ (p >> 31) ^ (p >> 40)) as u8).collect();
        for (s, b) in &self.parts {
            let (lo, hi) = (at.max(*s), (at + n as u64).min(*s + b.len() as u64));
            if lo < hi {
                v[(lo - at) as usize..(hi - at) as usize].copy_from_slice(&b[(lo - s) as usize..(hi - s) as usize]);
            }
        }
        v
    }
}

impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let n = (buf.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        buf[..n].copy_from_slice(&self.part(self.pos, n));
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for Sparse {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::End(n) => self.len as i128 + n as i128,
            SeekFrom::Current(n) => self.pos as i128 + n as i128,
        };
        if n < 0 || n > u64::MAX as i128 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = n as u64;
        Ok(self.pos)
    }
}

/// The same file read asynchronously: bytes that are not stored are passed over without being written
#[derive(Debug)]
pub struct AsyncSparse(pub Sparse);

impl futures::AsyncRead for AsyncSparse {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, buf: &mut [u8]) -> Poll<Result<usize>> {
        let f = &mut self.0;
        let mut n = (buf.len() as u64).min(f.len.saturating_sub(f.pos));
        let stored = f.parts.iter().any(|(s, b)| *s <= f.pos && f.pos < *s + b.len() as u64);
        for (s, b) in &f.parts {
            // up to the next change between stored and not stored
            for edge in [*s, *s + b.len() as u64] {
                if f.pos < edge {
                    n = n.min(edge - f.pos);
                }
            }
        }
        if stored {
            let v = f.part(f.pos, n as usize);
            buf[..n as usize].copy_from_slice(&v);
        }
        f.pos += n;
        Poll::Ready(Ok(n as usize))
    }
}
