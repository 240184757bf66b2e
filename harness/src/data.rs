//! Compact descriptions of inputs, and their generators.

use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub const MIB: usize = 1 << 20;
pub const TAG: usize = 16;

/// File content: described, not stored.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Data {
    pub len: usize,
    /// 0 zeros, 1 pseudo-random, 2 text, 3 repeating 1 MiB block, 4 looks like a header, 5 0xff,
    /// 6 long runs of zeros in between, 7 begins like a file of some other kind
    pub fill: u8,
    pub seed: u64,
}

pub fn prand(seed: u64, n: usize) -> Vec<u8> {
    let mut out = vec![0u8; n];
    let mut h = blake3::Hasher::new();
    h.update(&seed.to_le_bytes());
    h.finalize_xof().fill(&mut out);
    out
}

impl Data {
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.len;
        match self.fill {
            0 => vec![0; n],
            1 => prand(self.seed, n),
            2 => {
                let t = format!("the quick brown fox {} jumps over\r\n", self.seed);
                t.bytes().cycle().take(n).collect()
            }
            3 => {
                let b = prand(self.seed, MIB.min(n));
                (0..n).map(|i| b[i % MIB]).collect()
            }
            4 => {
                let mut v = prand(self.seed, n);
                let h = [0xDE, (self.seed % 6) as u8, 0x0E, 1 + (self.seed % 3) as u8, 0x0C, 1];
                for (d, s) in v.iter_mut().zip(h) {
                    *d = s;
                }
                v
            }
            6 => {
                let mut v = prand(self.seed, n);
                let run = 1 << (self.seed % 14);
                for (i, c) in v.chunks_mut(run).enumerate() {
                    if self.seed >> (i % 50) & 1 == 0 {
                        c.fill(0);
                    }
                }
                v
            }
            7 => {
                const MAGICS: [&[u8]; 9] = [b"PK\x03\x04\x14\0", b"\x28\xb5\x2f\xfd", b"\x1f\x8b\x08", b"\xef\xbb\xbf", b"\xff\xfe", b"#!/bin/sh\n", b"\x7fELF", b"-----BEGIN", b"\x89PNG\r\n\x1a\n"];
                let mut v = prand(self.seed, n);
                for (d, s) in v.iter_mut().zip(MAGICS[self.seed as usize % 9]) {
                    *d = *s;
                }
                v
            }
            _ => vec![0xff; n],
        }
    }
}

/// Lengths around every boundary the format and the block size have.
pub fn len_strategy(max_blocks: usize) -> BoxedStrategy<usize> {
    let deltas = vec![-17i64, -16, -15, -1, 0, 1, 15, 16, 17, 400, 416, 432];
    prop_oneof![
        3 => 0usize..64,
        2 => prop::sample::select(vec![0usize, 1, 15, 16, 17, 31, 47, 48, 49, 63, 64, 65, 111, 112, 127, 128, 129, 383, 399, 400, 401, 415, 416, 417, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193, 65535, 65536]),
        3 => 0usize..6000,
        1 => 60_000usize..300_000,
        4 => (1usize..=max_blocks.max(1), prop::sample::select(deltas)).prop_map(|(k, d)| (k as i64 * MIB as i64 + d).max(0) as usize),
        1 => 0usize..(max_blocks.max(1) * MIB),
    ]
    .boxed()
}

pub fn small_len() -> BoxedStrategy<usize> {
    prop_oneof![3 => 0usize..64, 2 => prop::sample::select(vec![0usize,1,2,16,511,512,513,1023,1024,1025,4096]), 3 => 0usize..6000].boxed()
}

pub fn data(max_blocks: usize) -> BoxedStrategy<Data> {
    data_of(len_strategy(max_blocks))
}
pub fn data_of(len: BoxedStrategy<usize>) -> BoxedStrategy<Data> {
    (len, prop::sample::select(vec![1u8, 1, 1, 0, 2, 3, 4, 5, 6, 7]), any::<u64>())
        .prop_map(|(len, fill, seed)| Data { len, fill, seed })
        .boxed()
}

/// Passwords: arbitrary bytes, biased to awkward shapes.
pub fn password() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        4 => "[ -~]{1,24}".prop_map(String::into_bytes),
        1 => "\\PC{1,12}".prop_map(String::into_bytes),
        2 => vec(any::<u8>(), 1..40),
        1 => Just(Vec::new()),
        1 => vec(prop::sample::select(vec![0u8, 10, 13, 32, 255]), 1..8),
        1 => (any::<u64>(), prop::sample::select(vec![31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 1023, 1024, 1025, 4096, 70_000])).prop_map(|(s, n)| prand(s, n)),
    ]
    .boxed()
}

/// A password that differs from `pw`, usually by little.
pub fn near_miss(pw: &[u8], how: u8, seed: u64) -> Vec<u8> {
    let mut v = pw.to_vec();
    let pos = if v.is_empty() { 0 } else { (seed as usize) % v.len() };
    match how % 14 {
        0 => v.push(0),
        1 => v.push(b'\n'),
        2 => {
            v.pop();
        }
        3 => {
            if !v.is_empty() {
                v[pos] ^= 1 << (seed >> 32 & 7);
            }
        }
        4 => v.insert(0, b' '),
        5 => {
            if !v.is_empty() {
                v.remove(pos);
            }
        }
        6 => v.extend_from_slice(pw),
        7 => v.clear(),
        8 => v.iter_mut().for_each(|c| *c = c.to_ascii_uppercase()),
        9 => v.reverse(),
        10 => {
            if let Some(l) = v.last_mut() {
                *l = l.wrapping_add(1);
            }
        }
        11 => v.truncate(pos),
        12 => v.push(b' '),
        _ => v = prand(seed, 1 + (seed as usize % 20)),
    }
    if v == pw {
        v.push(b'x');
    }
    v
}

/// How the harness's files deliver and accept bytes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Chunk {
    Full,
    Max(usize),
    Random(u64, usize),
}
impl Chunk {
    pub fn next(&self, k: u64, want: usize) -> usize {
        if want == 0 {
            return 0;
        }
        match self {
            Chunk::Full => want,
            Chunk::Max(n) => want.min((*n).max(1)),
            Chunk::Random(seed, max) => {
                let r = crate::fw::h64(&[seed.to_le_bytes(), k.to_le_bytes()].concat());
                want.min(1 + (r as usize) % (*max).max(1))
            }
        }
    }
}
pub fn chunk() -> BoxedStrategy<Chunk> {
    prop_oneof![
        4 => Just(Chunk::Full),
        2 => prop::sample::select(vec![511usize, 512, 4096, 8192, 65_536, 65_537, 1_000_000, 1_048_575, 1_048_576, 1_048_577, 1_048_591, 1_048_592, 1_048_593, 3_000_000]).prop_map(Chunk::Max),
        2 => (any::<u64>(), prop::sample::select(vec![700usize, 5000, 100_000, 1_500_000])).prop_map(|(s, m)| Chunk::Random(s, m)),
    ]
    .boxed()
}
/// Chunkings that may also be tiny (for inputs of bounded size).
pub fn chunk_tiny() -> BoxedStrategy<Chunk> {
    prop_oneof![
        2 => chunk(),
        1 => prop::sample::select(vec![1usize, 2, 3, 7, 16, 63, 64, 100]).prop_map(Chunk::Max),
        1 => (any::<u64>(), prop::sample::select(vec![2usize, 20, 200])).prop_map(|(s, m)| Chunk::Random(s, m)),
    ]
    .boxed()
}
