use crate::sx;

/// value of `w` bits starting at bit `i*w` of an LSB-first packed buffer (the format's definition); w <= 64
#[inline(always)]
pub fn unpack_ref(b: &[u8], i: usize, w: usize) -> u64 {
    let start = i * w;
    let mut v: u128 = 0;
    let first = start / 8;
    let last = (start + w + 7) / 8;
    for k in first..last {
        let byte = if k < b.len() { b[k] } else { 0 };
        v |= (byte as u128) << (8 * (k - first));
    }
    v >>= start % 8;
    (v & ((1u128 << w) - 1)) as u64
}
#[inline(always)]
pub fn mask64(w: usize) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
#[inline(always)]
pub fn ceil8(x: usize) -> usize {
    (x + 7) / 8
}
/// reference ULEB128 writer for concrete values
pub fn uleb(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
/// arbitrary u32 below 2^w, as the bits of one variable
#[inline(always)]
pub fn val32(w: usize) -> u32 {
    (sx::u32() as u64 & mask64(w)) as u32
}
#[inline(always)]
pub fn val64(w: usize) -> u64 {
    sx::u64() & mask64(w)
}
/// byte slices compared element-wise without short-circuit forks
#[inline(always)]
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn all_sum(x: &[u8]) -> u64 {
    x.iter().fold(0u64, |a, b| a.wrapping_mul(31).wrapping_add(*b as u64))
}
/// the value as exactly `n` LEB128 groups (valid, not necessarily minimal); assumes it fits
#[inline(always)]
pub fn uleb_fixed(out: &mut Vec<u8>, v: u64, n: usize) {
    if n < 10 {
        sx::assume(v >> (7 * n) == 0);
    }
    for i in 0..n {
        let b = if 7 * i < 64 { (v >> (7 * i)) as u8 & 0x7f } else { 0 };
        out.push(if i + 1 < n { b | 0x80 } else { b });
    }
}
#[inline(always)]
pub fn zz(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
#[inline(always)]
pub fn unzz(z: u64) -> i64 {
    ((z >> 1) as i64) ^ -((z & 1) as i64)
}

/// writes `k` runs of symbolic kinds, lengths and values; returns bytes, expansion and the run list
/// (is_bitpacked, byte range, repetitions)
#[inline(always)]
pub fn stream(w: usize, k: usize, maxrun: usize, truncate: bool) -> (Vec<u8>, Vec<u32>, Vec<(bool, usize, usize, usize)>) {
    let mut b = vec![];
    let mut v: Vec<u32> = vec![];
    let mut runs = vec![];
    for r in 0..k {
        if sx::flag() {
            let n = 1 + sx::choose(maxrun);
            let x = val32(w);
            uleb(&mut b, (n as u64) << 1);
            let s = b.len();
            for i in 0..ceil8(w) { b.push((x >> (8 * i)) as u8); }
            for _ in 0..n { v.push(x); }
            runs.push((false, s, b.len(), n));
        } else {
            let groups = [1usize, 2, 5][sx::choose(3)];
            uleb(&mut b, ((groups as u64) << 1) | 1);
            let s = b.len();
            let mut p = sx::bytes(groups * w);
            for i in 0..groups * 8 { v.push(unpack_ref(&p, i, w) as u32); }
            if truncate && r + 1 == k {
                // writers may cut the padding of the last group
                let cut = 1 + sx::choose(7);
                for _ in 0..cut { v.pop(); }
                p.truncate(ceil8((groups * 8 - cut) * w));
            }
            b.extend_from_slice(&p);
            runs.push((true, s, b.len(), 0));
        }
    }
    (b, v, runs)
}

// ---- pages
use parquet2::encoding::Encoding;
use parquet2::metadata::Descriptor;
use parquet2::page::{DataPage, DataPageHeader, DataPageHeaderV1, DataPageHeaderV2};
use parquet2::schema::types::{FieldInfo, PhysicalType, PrimitiveType};
use parquet2::schema::Repetition;

pub fn primitive(t: PhysicalType, r: Repetition) -> PrimitiveType {
    PrimitiveType {
        field_info: FieldInfo { name: "a".to_string(), repetition: r, id: None },
        logical_type: None,
        converted_type: None,
        physical_type: t,
    }
}
pub fn descriptor(t: PhysicalType, r: Repetition, max_def: i16, max_rep: i16) -> Descriptor {
    Descriptor { primitive_type: primitive(t, r), max_def_level: max_def, max_rep_level: max_rep }
}
pub fn header_v1(n: i32, e: Encoding) -> DataPageHeader {
    DataPageHeader::V1(DataPageHeaderV1 {
        num_values: n,
        encoding: e.into(),
        definition_level_encoding: Encoding::Rle.into(),
        repetition_level_encoding: Encoding::Rle.into(),
        statistics: None,
    })
}
pub fn header_v2(n: i32, rows: i32, e: Encoding, rep: i32, def: i32) -> DataPageHeader {
    DataPageHeader::V2(DataPageHeaderV2 {
        num_values: n,
        num_nulls: 0,
        num_rows: rows,
        encoding: e.into(),
        definition_levels_byte_length: def,
        repetition_levels_byte_length: rep,
        is_compressed: None,
        statistics: None,
    })
}
/// a page of the given version from its three parts
pub fn page(v: usize, n: usize, e: Encoding, d: Descriptor, rep: &[u8], def: &[u8], values: &[u8]) -> DataPage {
    let mut b = vec![];
    if v == 1 {
        if d.max_rep_level > 0 {
            b.extend_from_slice(&(rep.len() as u32).to_le_bytes());
            b.extend_from_slice(rep);
        }
        if d.max_def_level > 0 {
            b.extend_from_slice(&(def.len() as u32).to_le_bytes());
            b.extend_from_slice(def);
        }
        b.extend_from_slice(values);
        DataPage::new(header_v1(n as i32, e), b, d, None)
    } else {
        b.extend_from_slice(rep);
        b.extend_from_slice(def);
        b.extend_from_slice(values);
        DataPage::new(header_v2(n as i32, n as i32, e, rep.len() as i32, def.len() as i32), b, d, None)
    }
}

/// a schema element with nothing set
pub fn blank(name: &str) -> parquet_format_safe::SchemaElement {
    parquet_format_safe::SchemaElement {
        type_: None,
        type_length: None,
        repetition_type: None,
        name: name.to_string(),
        num_children: None,
        converted_type: None,
        scale: None,
        precision: None,
        field_id: None,
        logical_type: None,
    }
}
