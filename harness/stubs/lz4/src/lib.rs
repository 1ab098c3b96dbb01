//! Stand-in for the lz4 crate, whose codec is compiled from C: the same interface over lz4_flex, the same format in Rust.
pub mod block {
    use std::io::{Error, ErrorKind, Result};
    #[derive(Clone, Copy, Debug)]
    pub enum CompressionMode { HIGHCOMPRESSION(i32), FAST(i32), DEFAULT }
    pub fn compress_bound(n: usize) -> Result<usize> {
        if n > 0x7e00_0000 { return Err(Error::new(ErrorKind::InvalidInput, "Compression input too long.")); }
        Ok(n + n / 255 + 16)
    }
    pub fn compress_to_buffer(src: &[u8], _: Option<CompressionMode>, prepend: bool, out: &mut [u8]) -> Result<usize> {
        let at = if prepend { 4 } else { 0 };
        if prepend { out[..4].copy_from_slice(&(src.len() as u32).to_le_bytes()); }
        // the C library writes anywhere the result fits; this one asks for the bound
        let mut b = vec![0; 2 * src.len() + 40];
        let n = lz4_flex::block::compress_into(src, &mut b).map_err(|_| Error::new(ErrorKind::Other, "Compression failed"))?;
        if out.len() - at < n { return Err(Error::new(ErrorKind::Other, "Compression failed")); }
        out[at..at + n].copy_from_slice(&b[..n]);
        Ok(at + n)
    }
    pub fn decompress_to_buffer(mut src: &[u8], size: Option<i32>, out: &mut [u8]) -> Result<usize> {
        let size = match size {
            Some(n) => n,
            None => {
                if src.len() < 4 { return Err(Error::new(ErrorKind::InvalidInput, "Source buffer must at least contain size prefix.")); }
                let n = i32::from_le_bytes([src[0], src[1], src[2], src[3]]);
                src = &src[4..];
                n
            }
        };
        if size < 0 { return Err(Error::new(ErrorKind::InvalidInput, "Size is negative")); }
        if size as usize > out.len() { return Err(Error::new(ErrorKind::InvalidInput, "buffer isn't large enough to hold decompressed data")); }
        lz4_flex::block::decompress_into(src, &mut out[..size as usize]).map_err(|_| Error::new(ErrorKind::InvalidData, "Decompression failed. Input invalid or too long?"))
    }
}
