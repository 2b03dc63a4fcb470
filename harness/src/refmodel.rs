//! Independent reading of the documented storage format: element layout, record rules.
//! Nothing here calls into cfg-noodle.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum El {
    Start(u32),
    Data(Vec<u8>),
    End(u32, u32),
    Bad,
}

pub const H_START: u8 = 0;
pub const H_DATA: u8 = 1;
pub const H_END: u8 = 2;

/// Decode one stored element.
pub fn decode(b: &[u8]) -> El {
    match b.first() {
        Some(&H_START) if b.len() == 5 => {
            let s = u32::from_le_bytes([b[1], b[2], b[3], b[4]]);
            if s == 0 { El::Bad } else { El::Start(s) }
        }
        Some(&H_DATA) if b.len() > 1 => El::Data(b[1..].to_vec()),
        Some(&H_END) if b.len() == 9 => {
            let s = u32::from_le_bytes([b[1], b[2], b[3], b[4]]);
            let c = u32::from_le_bytes([b[5], b[6], b[7], b[8]]);
            if s == 0 { El::Bad } else { El::End(s, c) }
        }
        _ => El::Bad,
    }
}

pub fn enc_start(seq: u32) -> Vec<u8> {
    let mut v = vec![H_START];
    v.extend_from_slice(&seq.to_le_bytes());
    v
}

pub fn enc_end(seq: u32, crc: u32) -> Vec<u8> {
    let mut v = vec![H_END];
    v.extend_from_slice(&seq.to_le_bytes());
    v.extend_from_slice(&crc.to_le_bytes());
    v
}

pub fn enc_data(key: &str, val: &[u8]) -> Vec<u8> {
    let mut v = vec![H_DATA];
    v.extend_from_slice(&cbor_text(key));
    v.extend_from_slice(val);
    v
}

pub fn cbor_text(key: &str) -> Vec<u8> {
    let n = key.len();
    let mut v = Vec::new();
    if n < 24 {
        v.push(0x60 | n as u8);
    } else if n < 256 {
        v.push(0x78);
        v.push(n as u8);
    } else {
        v.push(0x79);
        v.extend_from_slice(&(n as u16).to_be_bytes());
    }
    v.extend_from_slice(key.as_bytes());
    v
}

/// Split key and value of a data element's payload. `None` if the key is not definite-length CBOR text.
pub fn split_kv(p: &[u8]) -> Option<(String, Vec<u8>)> {
    let (&h, rest) = p.split_first()?;
    let w = match h {
        0x60..=0x77 => 0,
        0x78 => 1,
        0x79 => 2,
        0x7a => 4,
        0x7b => 8,
        _ => return None,
    };
    if rest.len() < w {
        return None;
    }
    let n = if w == 0 { (h - 0x60) as u64 } else { rest[..w].iter().fold(0, |a, b| a << 8 | *b as u64) };
    let rest = &rest[w..];
    if (rest.len() as u64) < n {
        return None;
    }
    let (k, v) = rest.split_at(n as usize);
    Some((std::str::from_utf8(k).ok()?.to_string(), v.to_vec()))
}

/// CRC-32/CKSUM (POSIX polynomial, no length suffix): poly 04C11DB7, init 0, not reflected, xorout FFFFFFFF.
pub fn crc_cksum(chunks: &[&[u8]]) -> u32 {
    let mut c: u32 = 0;
    for ch in chunks {
        for &b in *ch {
            c ^= (b as u32) << 24;
            for _ in 0..8 {
                c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x04C1_1DB7 } else { c << 1 };
            }
        }
    }
    !c
}

/// An intact record found in a queue of elements.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rec {
    pub seq: u32,
    pub start: usize,
    pub end: usize, // inclusive
    pub data: Vec<Vec<u8>>,
}

impl Rec {
    pub fn kv(&self) -> Vec<(String, Vec<u8>)> {
        self.data.iter().filter_map(|d| split_kv(d)).collect()
    }
    /// First value stored under `key`.
    pub fn get(&self, key: &str) -> Option<Vec<u8>> {
        self.kv().into_iter().find(|(k, _)| k == key).map(|(_, v)| v)
    }
}

pub fn records(elems: &[Vec<u8>]) -> Vec<Rec> {
    let mut out = Vec::new();
    let mut cur: Option<(u32, usize, Vec<Vec<u8>>)> = None;
    for (i, e) in elems.iter().enumerate() {
        match decode(e) {
            El::Bad => cur = None,
            El::Start(s) => cur = Some((s, i, vec![])),
            El::Data(d) => {
                if let Some(c) = cur.as_mut() {
                    c.2.push(d)
                }
            }
            El::End(s, crc) => {
                if let Some((s0, start, data)) = cur.take() {
                    let ch: Vec<&[u8]> = data.iter().map(|d| d.as_slice()).collect();
                    if s0 == s && crc_cksum(&ch) == crc {
                        out.push(Rec { seq: s, start, end: i, data });
                    }
                }
            }
        }
    }
    out
}

pub fn newest(elems: &[Vec<u8>]) -> Option<Rec> {
    records(elems).into_iter().max_by_key(|r| r.seq)
}

/// What a due collection must leave: elements of the `k` newest intact records, in order.
pub fn survivors(elems: &[Vec<u8>], k: usize) -> Vec<Vec<u8>> {
    let mut rs = records(elems);
    rs.sort_by_key(|r| r.seq);
    let keep: Vec<&Rec> = rs.iter().rev().take(k).collect();
    elems
        .iter()
        .enumerate()
        .filter(|(i, _)| keep.iter().any(|r| r.start <= *i && *i <= r.end))
        .map(|(_, e)| e.clone())
        .collect()
}

/// Build an intact record.
pub fn build(seq: u32, kv: &[(String, Vec<u8>)]) -> Vec<Vec<u8>> {
    let mut v = vec![enc_start(seq)];
    let datas: Vec<Vec<u8>> = kv.iter().map(|(k, b)| enc_data(k, b)).collect();
    let ch: Vec<&[u8]> = datas.iter().map(|d| &d[1..]).collect();
    let crc = crc_cksum(&ch);
    v.extend(datas.clone());
    v.push(enc_end(seq, crc));
    v
}
