//! C27 what a file gives away.

use super::arch::*;
use super::crypt::*;
use super::*;
use crate::data::*;
use crate::fw::*;
use crate::ops;
use crate::refc::{self, BLOCK};
use crate::stor::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;
use std::sync::Arc;

/// The same draw of randomness for everything `f` does.
fn drawn<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<T, Fail> {
    std::thread::scope(|s| {
        s.spawn(|| {
            getrandom::verif::set(Some(seed));
            let r = guard(f);
            getrandom::verif::set(None);
            r
        })
        .join()
        .unwrap_or_else(|_| Err("panic".into()))
    })
    .map_err(Fail::from)
}

fn enc(cfg: &Cfg, pw: &[u8], pt: &[u8], entropy: u64) -> Result<(Vec<u8>, Vec<u8>), Fail> {
    let f = drawn(entropy, || ops::encrypt_bytes(cfg.version, cfg.alg, cfg.kdf, pw, pt))?.map_err(|e| format!("encrypt: {e}"))?;
    let hl = refc::header_len(cfg.version);
    ensure!(f.len() >= hl, "output shorter than a header");
    let b = f[hl..].to_vec();
    Ok((f[..hl].to_vec(), b))
}

const W: usize = 8;
/// Windows of 8 bytes (all of them for short secrets, else from places all over).
fn windows(secret: &[u8]) -> HashSet<[u8; W]> {
    if secret.len() < W {
        return HashSet::new();
    }
    let n = secret.len() - W + 1;
    let step = (n / 4000).max(1);
    (0..n).step_by(step).chain([n - 1]).map(|i| secret[i..i + W].try_into().unwrap()).collect()
}
fn shows(out: &[u8], w: &HashSet<[u8; W]>) -> Option<usize> {
    if w.is_empty() {
        return None;
    }
    out.windows(W).position(|x| w.contains(<&[u8; W]>::try_from(x).unwrap()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Veil {
    len: usize,
    seeds: (u64, u64),
    entropy: (u64, u64),
    pw: Vec<u8>,
    cfg: Cfg,
    pattern: u8,
}

fn veil(c: &Veil, cov: &mut Cov) -> Res {
    let make = |seed: u64| -> Vec<u8> {
        match c.pattern % 3 {
            0 => prand(seed, c.len),
            // the same block over and over
            1 => prand(seed, BLOCK).into_iter().cycle().take(c.len).collect(),
            _ => vec![seed as u8; c.len],
        }
    };
    let (a, b) = (make(c.seeds.0), make(c.seeds.1));
    let (h1, b1) = enc(&c.cfg, &c.pw, &a, c.entropy.0)?;
    // other content, same randomness
    let (h2, b2) = enc(&c.cfg, &c.pw, &b, c.entropy.0)?;
    ensure!(h1 == h2, "the header depends on the content: it differs at byte {:?}", diff(&h1, &h2));
    ensure!(b1.len() == b2.len(), "{} and {} bytes for contents of the same length", b1.len(), b2.len());
    // same content, other randomness
    let (_, b3) = enc(&c.cfg, &c.pw, &a, c.entropy.1)?;
    ensure!(b1.len() == b3.len(), "{} and {} bytes for the same content", b1.len(), b3.len());
    if c.entropy.0 != c.entropy.1 {
        let s: HashSet<&[u8]> = b1.chunks_exact(16).collect();
        if let Some(i) = b3.chunks_exact(16).position(|x| s.contains(x)) {
            fail!("two encryptions of the same content share the 16 bytes at {}", 16 * i);
        }
    }
    // equal parts of the content are not equal in the output
    let mut s = HashSet::new();
    for (i, x) in b1.chunks_exact(16).enumerate() {
        ensure!(s.insert(x), "16 bytes of the output (at {}) appear in it before", 16 * i);
    }
    // nothing of it in the clear
    let all = [&h1[..], &b1[..]].concat();
    if c.pattern % 3 < 2 {
        if let Some(p) = shows(&all, &windows(&a)) {
            fail!("bytes of the content stand in the output at {p}");
        }
    } else if c.len >= 16 {
        ensure!(!all[refc::header_len(c.cfg.version)..].windows(W).any(|w| w.iter().all(|x| *x == c.seeds.0 as u8)), "bytes of the content stand in the output");
    }
    let zeros = c.pw.iter().all(|x| *x == 0);
    if !zeros && c.pw.len() >= W && c.pw.windows(W).all(|w| w.iter().collect::<HashSet<_>>().len() > 2) {
        if let Some(p) = shows(&all, &windows(&c.pw)) {
            fail!("bytes of the password stand in the output at {p}");
        }
    }
    // the digests a reader could recognize the content by
    let d = blake3::hash(&a);
    if c.len > 0 {
        if let Some(p) = shows(&all, &windows(d.as_bytes())) {
            fail!("the digest of the content stands in the output at {p}");
        }
    }
    cov.label(format!("v{}/{:?}", c.cfg.version, c.cfg.alg));
    if c.len >= 16 {
        cov.nontrivial();
    }
    cov.evals(2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct VeilPack {
    tree: Vec<(u64, u16)>,
    pw: Vec<u8>,
    cfg: Cfg,
    zstd: bool,
    detached: bool,
}

fn veil_pack(c: &VeilPack, cov: &mut Cov) -> Res {
    let s = Arc::new(MemStorage::new());
    s.mkdir("a directory with a name");
    let mut w = windows(b"a directory with a name");
    for (seed, n) in &c.tree {
        let name: String = prand(*seed, 24).iter().map(|b| (b'a' + b % 26) as char).collect();
        let content = prand(seed ^ 77, *n as usize);
        w.extend(windows(name.as_bytes()));
        w.extend(windows(&content));
        s.put(format!("a directory with a name/{name}"), content);
    }
    let method = if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
    let (o, h) = pack_mem(&s, "a directory with a name", &c.pw, &c.cfg, c.detached, method)?;
    if let Some(p) = shows(&o, &w) {
        fail!("names or contents stand in the packed file at {p}");
    }
    if let Some(p) = shows(&h.unwrap_or_default(), &w) {
        fail!("names or contents stand in the detached header at {p}");
    }
    cov.label(if c.zstd { "zstd" } else { "stored" });
    cov.nontrivial();
    Ok(())
}

pub fn c27(ctx: &Ctx) {
    ctx.check(
        "content",
        ctx.scale(1500, 30_000),
        || {
            (prop_oneof![8 => small_len(), 2 => len_strategy(3)], (any::<u64>(), any::<u64>()), (any::<u64>(), any::<u64>()), password(), cfg(), 0u8..3)
                .prop_map(|(len, seeds, entropy, pw, cfg, pattern)| Veil { len, seeds, entropy, pw, cfg, pattern })
                .boxed()
        },
        veil,
    );
    ctx.check(
        "archives",
        ctx.scale(900, 15_000),
        || {
            (vec((any::<u64>(), 0u16..3000), 0..6), password(), cfg(), any::<bool>(), any::<bool>())
                .prop_map(|(tree, pw, cfg, zstd, detached)| VeilPack { tree, pw, cfg, zstd, detached })
                .boxed()
        },
        veil_pack,
    );
}
