//! Independent reference implementation of the volaris file format (V1..V5), written from the
//! format's description: header layouts, KDF parameters, LE31 streaming construction.

use aead::{Aead, KeyInit, Payload};
use serde::{Deserialize, Serialize};

pub const BLOCK: usize = 1 << 20;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Alg {
    XChaCha,
    Aes,
    Deoxys,
}
pub const ALGS: [Alg; 3] = [Alg::XChaCha, Alg::Aes, Alg::Deoxys];

impl Alg {
    pub fn code(self) -> u8 {
        match self {
            Alg::XChaCha => 1,
            Alg::Aes => 2,
            Alg::Deoxys => 3,
        }
    }
    pub fn nonce_len(self) -> usize {
        match self {
            Alg::XChaCha => 24,
            Alg::Aes => 12,
            Alg::Deoxys => 15,
        }
    }
    pub fn lib(self) -> corecrypto::primitives::Algorithm {
        use corecrypto::primitives::Algorithm as A;
        match self {
            Alg::XChaCha => A::XChaCha20Poly1305,
            Alg::Aes => A::Aes256Gcm,
            Alg::Deoxys => A::DeoxysII256,
        }
    }
}

/// Password hash identifiers: 1,2,3 argon2id; 4,5 BLAKE3-balloon.
pub type Kdf = u8;
pub const KDFS: [Kdf; 5] = [5, 3, 4, 1, 2];

pub fn kdf_lib(k: Kdf) -> corecrypto::header::HashingAlgorithm {
    use corecrypto::header::HashingAlgorithm as H;
    match k {
        1..=3 => H::Argon2id(i32::from(k)),
        _ => H::Blake3Balloon(i32::from(k)),
    }
}

pub fn kdf(k: Kdf, pw: &[u8], salt: &[u8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    match k {
        1..=3 => {
            let (m, t, p) = [(8192, 8, 4), (262_144, 8, 4), (262_144, 10, 4)][k as usize - 1];
            let params = argon2::Params::new(m, t, p, Some(32)).unwrap();
            argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, params)
                .hash_password_into(pw, salt, &mut out)
                .unwrap();
        }
        _ => {
            let s = if k == 4 { 262_144 } else { 278_528 };
            let params = balloon_hash::Params::new(s, 1, 1).unwrap();
            balloon_hash::Balloon::<blake3::Hasher>::new(balloon_hash::Algorithm::Balloon, params, None)
                .hash_into(pw, salt, &mut out)
                .unwrap();
        }
    }
    out
}

pub fn seal(a: Alg, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Vec<u8> {
    assert_eq!(nonce.len(), a.nonce_len());
    let p = Payload { msg, aad };
    match a {
        Alg::XChaCha => chacha20poly1305::XChaCha20Poly1305::new(key.into()).encrypt(nonce.into(), p),
        Alg::Aes => aes_gcm::Aes256Gcm::new(key.into()).encrypt(nonce.into(), p),
        Alg::Deoxys => deoxys::DeoxysII256::new(key.into()).encrypt(nonce.into(), p),
    }
    .expect("seal")
}

pub fn open(a: Alg, key: &[u8; 32], nonce: &[u8], aad: &[u8], msg: &[u8]) -> Option<Vec<u8>> {
    if nonce.len() != a.nonce_len() {
        return None;
    }
    let p = Payload { msg, aad };
    match a {
        Alg::XChaCha => chacha20poly1305::XChaCha20Poly1305::new(key.into()).decrypt(nonce.into(), p),
        Alg::Aes => aes_gcm::Aes256Gcm::new(key.into()).decrypt(nonce.into(), p),
        Alg::Deoxys => deoxys::DeoxysII256::new(key.into()).decrypt(nonce.into(), p),
    }
    .ok()
}

fn le31(prefix: &[u8], counter: u32, last: bool) -> Vec<u8> {
    let mut n = prefix.to_vec();
    n.extend_from_slice(&(counter | (u32::from(last) << 31)).to_le_bytes());
    n
}

pub fn stream_seal(a: Alg, key: &[u8; 32], prefix: &[u8], aad: &[u8], pt: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(pt.len() + 64);
    let full = pt.len() / BLOCK;
    for i in 0..full {
        out.extend(seal(a, key, &le31(prefix, i as u32, false), aad, &pt[i * BLOCK..(i + 1) * BLOCK]));
    }
    out.extend(seal(a, key, &le31(prefix, full as u32, true), aad, &pt[full * BLOCK..]));
    out
}

/// Strict: whole blocks, then exactly one final block shorter than a whole one.
pub fn stream_open(a: Alg, key: &[u8; 32], prefix: &[u8], aad: &[u8], ct: &[u8]) -> Option<Vec<u8>> {
    let unit = BLOCK + 16;
    let full = ct.len() / unit;
    let mut out = Vec::with_capacity(ct.len());
    for i in 0..full {
        out.extend(open(a, key, &le31(prefix, i as u32, false), aad, &ct[i * unit..(i + 1) * unit])?);
    }
    out.extend(open(a, key, &le31(prefix, full as u32, true), aad, &ct[full * unit..])?);
    Some(out)
}

pub fn header_len(version: u8) -> usize {
    match version {
        1..=3 => 64,
        4 => 128,
        _ => 416,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Slot {
    pub kdf: Kdf,
    pub enc: Vec<u8>,
    pub nonce: Vec<u8>,
    pub salt: Vec<u8>,
}

/// A header taken apart.
#[derive(Clone, Debug, PartialEq)]
pub struct Hdr {
    pub version: u8,
    pub alg: Alg,
    pub memory: bool,
    pub nonce: Vec<u8>,
    pub salt: Vec<u8>,
    pub slots: Vec<Slot>,
}

fn pad(v: &mut Vec<u8>, n: usize) {
    v.extend(std::iter::repeat(0).take(n));
}

impl Hdr {
    pub fn nonce_len(&self) -> usize {
        self.alg.nonce_len() - if self.memory { 0 } else { 4 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.nonce_len();
        assert_eq!(self.nonce.len(), n);
        let mut b = vec![0xDE, self.version, 0x0E, self.alg.code(), 0x0C, if self.memory { 2 } else { 1 }];
        match self.version {
            1 | 3 => {
                b.extend(&self.salt);
                pad(&mut b, 16);
                b.extend(&self.nonce);
                pad(&mut b, 26 - n);
            }
            2 => {
                b.extend(&self.salt);
                b.extend(&self.nonce);
                pad(&mut b, 26 - n);
                pad(&mut b, 16);
            }
            4 => {
                b.extend(&self.salt);
                b.extend(&self.nonce);
                pad(&mut b, 26 - n);
                b.extend(&self.slots[0].enc);
                b.extend(&self.slots[0].nonce);
                pad(&mut b, 32 - self.alg.nonce_len());
            }
            _ => {
                b.extend(&self.nonce);
                pad(&mut b, 26 - n);
                for s in &self.slots {
                    b.extend([0xDF, if s.kdf <= 3 { 0xA0 } else { 0xB0 } + s.kdf]);
                    b.extend(&s.enc);
                    b.extend(&s.nonce);
                    pad(&mut b, 24 - self.alg.nonce_len());
                    b.extend(&s.salt);
                    pad(&mut b, 6);
                }
                pad(&mut b, (4 - self.slots.len()) * 96);
            }
        }
        assert_eq!(b.len(), header_len(self.version));
        b
    }
    pub fn aad(&self) -> Vec<u8> {
        let b = self.bytes();
        match self.version {
            1 | 2 => vec![],
            3 => b,
            4 => [&b[..48], &b[96 + self.alg.nonce_len()..]].concat(),
            _ => b[..32].to_vec(),
        }
    }
    /// Strict parser: anything but a well-formed header is refused (padding must be zero).
    pub fn parse(b: &[u8]) -> Option<Hdr> {
        if b.len() < 6 || b[0] != 0xDE || !(1..=5).contains(&b[1]) || b[2] != 0x0E || b[4] != 0x0C {
            return None;
        }
        let version = b[1];
        let alg = match b[3] {
            1 => Alg::XChaCha,
            2 => Alg::Aes,
            3 => Alg::Deoxys,
            _ => return None,
        };
        let memory = match b[5] {
            1 => false,
            2 => true,
            _ => return None,
        };
        let hl = header_len(version);
        let b = b.get(..hl)?;
        let k = alg.nonce_len();
        let mut h = Hdr { version, alg, memory, nonce: vec![], salt: vec![], slots: vec![] };
        let n = h.nonce_len();
        match version {
            1 | 3 => {
                h.salt = b[6..22].to_vec();
                h.nonce = b[38..38 + n].to_vec();
            }
            2 => {
                h.salt = b[6..22].to_vec();
                h.nonce = b[22..22 + n].to_vec();
            }
            4 => {
                h.salt = b[6..22].to_vec();
                h.nonce = b[22..22 + n].to_vec();
                h.slots.push(Slot {
                    kdf: 4,
                    enc: b[48..96].to_vec(),
                    nonce: b[96..96 + k].to_vec(),
                    salt: h.salt.clone(),
                });
            }
            _ => {
                h.nonce = b[6..6 + n].to_vec();
                for i in 0..4 {
                    let s = &b[32 + 96 * i..128 + 96 * i];
                    if s[0] != 0xDF {
                        break;
                    }
                    let kdf = match s[1] {
                        0xA1 => 1,
                        0xA2 => 2,
                        0xA3 => 3,
                        0xB4 => 4,
                        0xB5 => 5,
                        _ => return None,
                    };
                    h.slots.push(Slot {
                        kdf,
                        enc: s[2..50].to_vec(),
                        nonce: s[50..50 + k].to_vec(),
                        salt: s[74..90].to_vec(),
                    });
                }
            }
        }
        if h.bytes() != b {
            return None;
        }
        Some(h)
    }
    /// The data key for `pw`, with the index of the slot it opened (0 for versions without slots).
    pub fn unlock(&self, pw: &[u8]) -> Option<([u8; 32], usize)> {
        if self.version <= 3 {
            return Some((kdf(self.version, pw, &self.salt), 0));
        }
        for (i, s) in self.slots.iter().enumerate() {
            let k = kdf(s.kdf, pw, &s.salt);
            if let Some(mk) = open(self.alg, &k, &s.nonce, &[], &s.enc) {
                if let Ok(mk) = mk.try_into() {
                    return Some((mk, i));
                }
            }
        }
        None
    }
    pub fn body_open(&self, key: &[u8; 32], body: &[u8]) -> Option<Vec<u8>> {
        if self.memory {
            open(self.alg, key, &self.nonce, &self.aad(), body)
        } else {
            stream_open(self.alg, key, &self.nonce, &self.aad(), body)
        }
    }
    pub fn body_seal(&self, key: &[u8; 32], pt: &[u8]) -> Vec<u8> {
        if self.memory {
            seal(self.alg, key, &self.nonce, &self.aad(), pt)
        } else {
            stream_seal(self.alg, key, &self.nonce, &self.aad(), pt)
        }
    }
}

/// What to build: everything random comes from `seed`.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec {
    pub version: u8,
    pub alg: Alg,
    pub memory: bool,
    /// (kdf, password) for each slot; for V1..V4 only the first password counts
    pub slots: Vec<(Kdf, Vec<u8>)>,
    pub seed: u64,
}

pub struct Built {
    pub hdr: Hdr,
    pub header: Vec<u8>,
    pub body: Vec<u8>,
    pub key: [u8; 32],
}
impl Built {
    pub fn file(&self) -> Vec<u8> {
        [&self.header[..], &self.body[..]].concat()
    }
}

/// seeds whose upper half is this one's: see `Spec::build`
pub const PLAIN: u64 = 0xA5A5_5A5A_0000_0000;

impl Spec {
    pub fn build(&self, pt: &[u8]) -> Built {
        let mut at = 0u64;
        // some seeds stand for keys, salts and nonces of one byte repeated
        let plain = self.seed >> 32 == PLAIN >> 32;
        let mut rnd = |n: usize| {
            at += 1;
            if plain && self.seed >> (8 + at % 8) & 1 == 1 {
                return vec![[0, 0xff, 1, (self.seed >> 16) as u8][self.seed as usize % 4]; n];
            }
            crate::data::prand(self.seed ^ (at << 48), n)
        };
        let n = self.alg.nonce_len();
        let mut hdr = Hdr {
            version: self.version,
            alg: self.alg,
            memory: self.memory,
            nonce: rnd(n - if self.memory { 0 } else { 4 }),
            salt: rnd(16),
            slots: vec![],
        };
        let key: [u8; 32] = match self.version {
            1..=3 => kdf(self.version, &self.slots[0].1, &hdr.salt),
            _ => {
                let mk: [u8; 32] = rnd(32).try_into().unwrap();
                let take = if self.version == 4 { 1 } else { self.slots.len() };
                for (k, pw) in self.slots.iter().take(take) {
                    let k = if self.version == 4 { 4 } else { *k };
                    let salt = if self.version == 4 { hdr.salt.clone() } else { rnd(16) };
                    let nonce = rnd(n);
                    let hk = kdf(k, pw, &salt);
                    hdr.slots.push(Slot { kdf: k, enc: seal(self.alg, &hk, &nonce, &[], &mk), nonce, salt });
                }
                mk
            }
        };
        if self.version == 5 {
            hdr.salt = vec![];
        }
        Built { header: hdr.bytes(), body: hdr.body_seal(&key, pt), hdr, key }
    }
}
