//! sources and sinks whose every operation may be split, suspended or made to fail, and an executor
use crate::sx;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};

#[derive(Clone, Copy, PartialEq)]
pub enum Fault { None, Error, Nothing, Interrupted, Short }
/// bytes with a position; counts its operations
#[derive(Clone)]
pub struct Io {
    pub data: Vec<u8>,
    pub at: u64,
    pub ops: usize,
    /// how many bytes each operation transfers: 0 all, 1 one, 2 half, 3 alternately one and all, 4 three, 5 any number in the first operations
    pub split: usize,
    /// asynchronous operations are suspended: 0 never, 1 every other time, 2 twice each
    pub pend: usize,
    pended: usize,
    pub fault: Fault,
    /// the operation that fails
    pub when: usize,
    pub hit: bool,
    pub seeks_fault: bool,
}
impl Io {
    pub fn new(data: Vec<u8>) -> Self { Io { data, at: 0, ops: 0, split: 0, pend: 0, pended: 0, fault: Fault::None, when: usize::MAX, hit: false, seeks_fault: true } }
    pub fn split(data: Vec<u8>, split: usize, pend: usize) -> Self { let mut s = Io::new(data); s.split = split; s.pend = pend; s }
    pub fn fault(data: Vec<u8>, fault: Fault, when: usize) -> Self { let mut s = Io::new(data); s.fault = fault; s.when = when; s }
    /// how much of `n` bytes the next operation transfers
    fn take(&mut self, n: usize) -> Result<usize> {
        let op = self.ops;
        self.ops += 1;
        let n = if n == 0 { 0 } else {
            match self.split {
                0 => n,
                1 => 1,
                2 => (n + 1) / 2,
                3 => if op % 2 == 0 { 1 } else { n },
                4 => n.min(3),
                _ => if op < 4 { 1 + sx::choose(n.min(3)) } else { n },
            }
        };
        if self.fault != Fault::None && op == self.when {
            self.hit = true;
            match self.fault {
                Fault::Error => return Err(Error::from(ErrorKind::Other)),
                Fault::Interrupted => return Err(Error::from(ErrorKind::Interrupted)),
                Fault::Nothing => return Ok(0),
                Fault::Short => return Ok(if n == 0 { 0 } else { 1 + sx::choose(n.min(4)).min(n - 1) }),
                Fault::None => {}
            }
        }
        Ok(n)
    }
    fn do_read(&mut self, b: &mut [u8]) -> Result<usize> {
        let left = (self.data.len() as u64).saturating_sub(self.at) as usize;
        if self.hit && self.fault == Fault::Nothing { return Ok(0); }
        let n = self.take(b.len().min(left))?;
        if n > 0 {
            let at = self.at as usize;
            b[..n].copy_from_slice(&self.data[at..at + n]);
            self.at += n as u64;
        }
        Ok(n)
    }
    fn do_write(&mut self, b: &[u8]) -> Result<usize> {
        let n = self.take(b.len())?;
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn do_flush(&mut self) -> Result<()> {
        let op = self.ops;
        self.ops += 1;
        if self.fault == Fault::Error && op == self.when { self.hit = true; return Err(Error::from(ErrorKind::Other)); }
        Ok(())
    }
    fn do_seek(&mut self, p: SeekFrom) -> Result<u64> {
        let op = self.ops;
        self.ops += 1;
        if self.fault == Fault::Error && op == self.when { self.hit = true; return Err(Error::from(ErrorKind::Other)); }
        let to = match p {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(x) => self.data.len() as i128 + x as i128,
            SeekFrom::Current(x) => self.at as i128 + x as i128,
        };
        if to < 0 || to > u64::MAX as i128 { return Err(Error::from(ErrorKind::InvalidInput)); }
        self.at = to as u64;
        Ok(self.at)
    }
    #[cfg(feature = "aio")]
    fn suspended(&mut self, cx: &mut std::task::Context<'_>) -> bool {
        if self.pended < self.pend { self.pended += 1; cx.waker().wake_by_ref(); return true; }
        self.pended = if self.pend == 1 && self.ops % 2 == 0 { 1 } else { 0 };
        false
    }
}
impl Read for Io { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.do_read(b) } }
impl Write for Io {
    fn write(&mut self, b: &[u8]) -> Result<usize> { self.do_write(b) }
    fn flush(&mut self) -> Result<()> { self.do_flush() }
}
impl Seek for Io { fn seek(&mut self, p: SeekFrom) -> Result<u64> { self.do_seek(p) } }

#[cfg(feature = "aio")]
mod asynchronous {
    use super::*;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    impl futures::AsyncRead for Io {
        fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut [u8]) -> Poll<Result<usize>> {
            if self.suspended(cx) { return Poll::Pending; }
            Poll::Ready(self.do_read(b))
        }
    }
    impl futures::AsyncWrite for Io {
        fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<Result<usize>> {
            if self.suspended(cx) { return Poll::Pending; }
            Poll::Ready(self.do_write(b))
        }
        fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<()>> {
            if self.suspended(cx) { return Poll::Pending; }
            Poll::Ready(self.do_flush())
        }
        fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<()>> { Poll::Ready(Ok(())) }
    }
    impl futures::AsyncSeek for Io {
        fn poll_seek(mut self: Pin<&mut Self>, cx: &mut Context<'_>, p: SeekFrom) -> Poll<Result<u64>> {
            if self.suspended(cx) { return Poll::Pending; }
            Poll::Ready(self.do_seek(p))
        }
    }
    pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
        let mut f = std::pin::pin!(f);
        let mut cx = Context::from_waker(std::task::Waker::noop());
        loop { if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return x; } }
    }
}
#[cfg(feature = "aio")]
pub use asynchronous::block_on;
