use crate::{harnesses, sx};
use parquet2::compression::*;

/// codec 0 snappy, 1 lz4 raw, 2 gzip, 3 brotli, 4 zstd; level 99: the default
fn options(codec: usize, level: usize) -> CompressionOptions {
    match codec {
        0 => CompressionOptions::Snappy,
        1 => CompressionOptions::Lz4Raw,
        2 => CompressionOptions::Gzip(if level == 99 { None } else { GzipLevel::try_new(level as u8).ok() }),
        3 => CompressionOptions::Brotli(if level == 99 { None } else { BrotliLevel::try_new(level as u32).ok() }),
        _ => CompressionOptions::Zstd(if level == 99 { None } else { ZstdLevel::try_new(level as i32).ok() }),
    }
}
/// bytes: free ones at the front and the rest repeating them or counting
fn data(free: usize, n: usize, how: usize) -> Vec<u8> {
    let mut v = sx::bytes(free);
    for i in free..n { v.push(match how { 0 => 7, 1 => i as u8, 2 => v[i % free.max(1)], _ => if i % 5 == 0 { v[i / 5 % free.max(1)] } else { i as u8 } }); }
    v
}
fn same(a: &[u8], b: &[u8]) -> bool { let mut ok = a.len() == b.len(); if ok { for i in 0..a.len() { ok &= a[i] == b[i]; } } ok }
/// the window of Brotli takes megabytes
fn big() { sx::alloc_limit(1 << 25, false); }
fn round(c: CompressionOptions, d: &[u8], prefix: usize) -> Option<Vec<u8>> {
    big();
    let p = sx::bytes(prefix);
    let mut out = p.clone();
    match compress(c, d, &mut out) {
        Ok(()) => {}
        Err(_) => { sx::check(false, "compression failed"); return None; }
    }
    sx::check(out.len() >= prefix && same(&out[..prefix], &p), "bytes already in the buffer changed");
    let z = out.split_off(prefix);
    match decode(c.into(), &z, d.len()) {
        Some(back) => sx::check(same(&back, d), "other bytes"),
        None => sx::check(false, "decompression failed"),
    }
    // into a buffer that held something else
    let mut other = vec![0x5fu8; d.len()];
    match decompress(c.into(), &z, &mut other) {
        Ok(_) => sx::check(same(&other, d), "bytes of the buffer"),
        Err(_) => sx::check(false, "decompression failed"),
    }
    Some(z)
}
/// whatever comes out does not depend on what was in the buffer
fn decode(c: Compression, z: &[u8], n: usize) -> Option<Vec<u8>> {
    big();
    let mut a = vec![0u8; n];
    let mut b = vec![0x5fu8; n];
    let x = decompress(c, z, &mut a).is_ok();
    let y = decompress(c, z, &mut b).is_ok();
    sx::check(x == y, "depends on the buffer");
    // LZ4 copies of bytes at distance 0, which only damaged data has, may give anything
    if x && y { sx::check(matches!(c, Compression::Lz4 | Compression::Lz4Raw) || same(&a, &b), "bytes left as they were"); return Some(a); }
    None
}

harnesses! {
    // [codec, level, free, n, how, prefix]
    fn h_round() {
        let d = data(sx::param(2), sx::param(3), sx::param(4));
        round(options(sx::param(0), sx::param(1)), &d, sx::param(5));
    }
    // [codec, n, m]: any bytes into m
    fn h_any() {
        let z = sx::bytes(sx::param(1));
        let c: Compression = match sx::param(0) { 5 => Compression::Lz4, k => options(k, 99).into() };
        decode(c, &z, sx::param(2));
        sx::check(true, "");
    }
    // [codec, free, n, how, position]: any byte in place of one, or cut there
    fn h_damaged() {
        big();
        let d = data(sx::param(1), sx::param(2), sx::param(3));
        let c = options(sx::param(0), 99);
        let mut z = vec![];
        if compress(c, &d, &mut z).is_err() { sx::check(false, "failed"); return; }
        let p = sx::param(4);
        if p >= z.len() { sx::check(true, ""); return; }
        decode(c.into(), &z[..p], d.len());
        z[p] = sx::u8();
        decode(c.into(), &z, d.len());
    }
    // [codec, free, n, how, m]: the wrong length
    fn h_length() {
        big();
        let d = data(sx::param(1), sx::param(2), sx::param(3));
        let c = options(sx::param(0), 99);
        let mut z = vec![];
        if compress(c, &d, &mut z).is_err() { sx::check(false, "failed"); return; }
        let m = sx::param(4);
        match decode(c.into(), &z, m) {
            Some(v) => sx::check(m <= d.len() && same(&v, &d[..m]), "not what was compressed"),
            None => sx::check(m != d.len(), "refused the right length"),
        }
    }
    fn h_levels() {
        let (a, b, c) = (sx::u8(), sx::u32(), sx::i32());
        let x = GzipLevel::try_new(a);
        sx::check(x.is_ok() == (a <= 10), "gzip level");
        if let Ok(x) = x { sx::check(x.compression_level() == a, "gzip level"); sx::reach("gzip"); }
        let x = BrotliLevel::try_new(b);
        sx::check(x.is_ok() == (b <= 11), "brotli level");
        if let Ok(x) = x { sx::check(x.compression_level() == b, "brotli level"); sx::reach("brotli"); }
        let x = ZstdLevel::try_new(c);
        sx::check(x.is_ok() == (c >= 1 && c <= 22), "zstd level");
        if let Ok(x) = x { sx::check(x.compression_level() == c, "zstd level"); sx::reach("zstd"); }
    }
    // [free, n, how, frames, tail]: legacy LZ4, framed as Hadoop does or bare
    fn h_hadoop() {
        let (free, n, how, frames, tail) = (sx::param(0), sx::param(1), sx::param(2), sx::param(3), sx::param(4));
        let mut all = vec![];
        let mut z = vec![];
        for f in 0..frames.max(1) {
            let d = data(free, n + f, how);
            let mut b = vec![];
            if compress(CompressionOptions::Lz4Raw, &d, &mut b).is_err() { sx::check(false, "failed"); return; }
            if frames > 0 { z.extend_from_slice(&(d.len() as u32).to_be_bytes()); z.extend_from_slice(&(b.len() as u32).to_be_bytes()); }
            z.extend_from_slice(&b);
            all.extend_from_slice(&d);
        }
        if frames > 0 { z.extend_from_slice(&vec![0; tail]); }
        match decode(Compression::Lz4, &z, all.len()) {
            Some(v) => sx::check(same(&v, &all), "other bytes"),
            None => sx::check(tail > 0 && frames > 0, "refused"),
        }
        let ok = decode(Compression::Lz4, &z, all.len() + 1).is_some();
        sx::check(!ok, "longer than what was compressed");
    }
    // [n, a, b]: two frames of any declared sizes
    fn h_frames() {
        let (x, y) = (sx::u32(), sx::u32());
        let mut z = vec![];
        z.extend_from_slice(&x.to_be_bytes());
        z.extend_from_slice(&y.to_be_bytes());
        z.extend_from_slice(&sx::bytes(sx::param(0)));
        decode(Compression::Lz4, &z, sx::param(1));
        sx::check(true, "");
    }
    // what cannot be done is refused
    fn h_unsupported() {
        let mut b = vec![1u8];
        for c in [CompressionOptions::Uncompressed, CompressionOptions::Lzo, CompressionOptions::Lz4] {
            sx::check(compress(c, &[1, 2], &mut b).is_err(), "compressed");
            sx::check(b.len() == 1 && b[0] == 1, "changed");
        }
        for c in [Compression::Uncompressed, Compression::Lzo] { sx::check(decompress(c, &[1, 2], &mut b).is_err(), "decompressed"); }
    }
}
