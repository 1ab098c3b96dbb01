//! Stand-in for the zstd crate, whose codec is compiled from C and thus cannot be executed from Rust's IR.
//! Frames are: magic, length, masked bytes, end. As with the real crate: nothing is complete before `finish`,
//! reads return any number of bytes (here at most 3), and damaged or truncated frames are errors.
use std::io::{self, Error, ErrorKind, Read, Write};
use std::marker::PhantomData;

pub const DEFAULT_COMPRESSION_LEVEL: i32 = 3;
const MAGIC: [u8; 4] = [0x28, 0xb5, 0x2f, 0xfd];

pub struct Encoder<'a, W: Write> { w: W, b: Vec<u8>, level: i32, p: PhantomData<&'a ()> }
impl<W: Write> Encoder<'static, W> {
    pub fn new(w: W, level: i32) -> io::Result<Self> { Ok(Self { w, b: vec![], level, p: PhantomData }) }
}
impl<'a, W: Write> Encoder<'a, W> {
    pub fn finish(mut self) -> io::Result<W> {
        self.w.write_all(&MAGIC)?;
        self.w.write_all(&[self.level as u8])?;
        self.w.write_all(&(self.b.len() as u32).to_le_bytes())?;
        for x in &self.b { self.w.write_all(&[x ^ 0x5a])?; }
        self.w.write_all(&[0xee])?;
        Ok(self.w)
    }
    pub fn try_finish(self) -> Result<W, (Self, io::Error)> { Ok(self.finish().map_err(|_| panic!()).unwrap()) }
    pub fn auto_finish(self) -> AutoFinishEncoder<'a, W> { AutoFinishEncoder(Some(self)) }
}
impl<'a, W: Write> Write for Encoder<'a, W> {
    // takes at most 5 bytes at a time
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { let n = b.len().min(5); self.b.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
pub struct AutoFinishEncoder<'a, W: Write>(Option<Encoder<'a, W>>);
impl<'a, W: Write> Write for AutoFinishEncoder<'a, W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.0.as_mut().unwrap().write(b) }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl<'a, W: Write> Drop for AutoFinishEncoder<'a, W> { fn drop(&mut self) { let _ = self.0.take().unwrap().finish(); } }

pub struct Decoder<'a, R> { r: R, state: Option<usize>, p: PhantomData<&'a ()> }
impl<R: Read> Decoder<'static, io::BufReader<R>> {
    pub fn new(r: R) -> io::Result<Self> { Ok(Self { r: io::BufReader::with_capacity(16, r), state: None, p: PhantomData }) }
}
impl<'a, R: io::BufRead> Read for Decoder<'a, R> {
    fn read(&mut self, out: &mut [u8]) -> io::Result<usize> {
        loop {
            match self.state {
                None => {
                    if self.r.fill_buf()?.is_empty() { return Ok(0); }
                    let mut b = [0; 9];
                    self.r.read_exact(&mut b)?;
                    if b[..4] != MAGIC { return Err(Error::new(ErrorKind::Other, "Unknown frame descriptor")); }
                    self.state = Some(u32::from_le_bytes([b[5], b[6], b[7], b[8]]) as usize);
                }
                Some(0) => {
                    let mut b = [0];
                    self.r.read_exact(&mut b)?;
                    if b[0] != 0xee { return Err(Error::new(ErrorKind::Other, "Data corruption detected")); }
                    self.state = None;
                }
                Some(n) => {
                    let k = n.min(3).min(out.len());
                    if k == 0 { return Ok(0); }
                    self.r.read_exact(&mut out[..k])?;
                    for x in &mut out[..k] { *x ^= 0x5a; }
                    self.state = Some(n - k);
                    return Ok(k);
                }
            }
        }
    }
}
pub mod stream {
    pub mod read { pub use crate::Decoder; }
    pub mod write { pub use crate::Encoder; }
    pub use crate::{Decoder, Encoder};
}
