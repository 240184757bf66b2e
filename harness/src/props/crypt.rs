//! C01 round trip, C02 tampering, C03 wrong passwords, C04 format conformance.

use super::*;
use crate::data::*;
use crate::fw::*;
use crate::io::*;
use crate::ops;
use crate::refc::{self, Alg, Hdr, Kdf, Spec, ALGS, BLOCK};
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub version: u8,
    pub alg: Alg,
    pub kdf: Kdf,
}
pub fn cfg() -> BoxedStrategy<Cfg> {
    (prop::sample::select(vec![5u8, 5, 5, 4]), prop::sample::select(ALGS.to_vec()), prop::sample::select(refc::KDFS.to_vec()))
        .prop_map(|(version, alg, kdf)| Cfg { version, alg, kdf: if version == 4 { 4 } else { kdf } })
        .boxed()
}

// ------------------------------------------------------------------ C01

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Rt {
    data: Data,
    pw: Vec<u8>,
    cfg: Cfg,
    detached: bool,
    start: u64,
    enc: (Chunk, Chunk),
    dec: (Chunk, Chunk),
}

fn rt_strategy(max_blocks: usize, tiny: bool) -> BoxedStrategy<Rt> {
    let ch = move || if tiny { chunk_tiny() } else { chunk() };
    let d = if tiny { data_of(small_len()) } else { data(max_blocks) };
    (d, password(), cfg(), any::<bool>(), prop_oneof![3 => Just(0u64), 1 => 1u64..5000], (ch(), ch()), (ch(), ch()))
        .prop_map(|(data, pw, cfg, detached, start, enc, dec)| Rt { data, pw, cfg, detached, start, enc, dec })
        .boxed()
}

fn rt(c: &Rt, cov: &mut Cov) -> Res {
    let pt = c.data.bytes();
    let mut inp = MemFile::new(pt.clone()).chunks(&c.enc.0, &c.enc.1);
    inp.pos = c.start;
    let out = MemFile::new(vec![]).chunks(&c.enc.0, &c.enc.1).cell();
    let hdr = MemFile::new(vec![]).chunks(&c.enc.0, &c.enc.1).cell();
    let inp = inp.cell();
    ops::encrypt(c.cfg.version, c.cfg.alg, c.cfg.kdf, &c.pw, &inp, &out, c.detached.then_some(&hdr))
        .map_err(|e| format!("encrypting failed: {e}"))?;
    ensure!(inp.borrow().contents() == pt, "encryption changed its input");
    let file = out.borrow().contents();
    let header = hdr.borrow().contents();
    let din = MemFile::new(file.clone()).chunks(&c.dec.0, &c.dec.1).cell();
    let dhdr = MemFile::new(header).chunks(&c.dec.0, &c.dec.1).cell();
    let dout = MemFile::new(vec![]).chunks(&c.dec.0, &c.dec.1).cell();
    ops::decrypt(&c.pw, &din, &dout, c.detached.then_some(&dhdr)).map_err(|e| format!("decrypting what was encrypted failed: {e}"))?;
    let got = dout.borrow().contents();
    if got != pt {
        fail!("decryption gave {} bytes for {}; first difference at {:?}", got.len(), pt.len(), diff(&got, &pt));
    }
    ensure!(din.borrow().contents() == file, "decryption changed its input");
    cov.label(format!("v{}", c.cfg.version));
    cov.label(format!("{:?}", c.cfg.alg));
    cov.label(if c.detached { "detached" } else { "embedded" });
    cov.label(match pt.len() {
        0 => "empty",
        n if n < BLOCK => "one_block",
        n if n % BLOCK == 0 => "exact_blocks",
        _ => "multi_block",
    });
    if c.enc.0 != Chunk::Full || c.dec.0 != Chunk::Full {
        cov.label("short_reads");
    }
    if !pt.is_empty() {
        cov.nontrivial();
    }
    Ok(())
}

pub fn c01(ctx: &Ctx) {
    ctx.check("roundtrip", ctx.scale(1800, 12_000), || rt_strategy(3, false), rt);
    ctx.check("roundtrip_small", ctx.scale(7500, 60_000), || rt_strategy(0, true), rt);
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mut {
    FlipHeader { pos: u64, bit: u8 },
    FlipBody { pos: u64, bit: u8 },
    /// flip near a block boundary / tag
    FlipNear { block: u64, delta: i64, bit: u8 },
    SetHeader { pos: u64, val: u8 },
    Truncate { keep: u64 },
    /// cut by at most 40 bytes
    TruncateTail { cut: u64 },
    TruncateBlocks { keep: u64 },
    Append { n: u64, seed: u64 },
    AppendBlock,
    SwapBlocks { a: u64, b: u64 },
    DupBlock { a: u64 },
    DropBlock { a: u64 },
    /// make a middle block the last one
    CopyBlock { from: u64, to: u64 },
    InsertZero { at: u64, n: u64 },
    /// body of another file encrypted with the same password and configuration
    OtherBody,
    OtherHeader,
    /// same key and nonce, other content: block taken from there (only possible with the key)
    OtherBlock { a: u64 },
    ZeroBlock { a: u64 },
    /// a byte of the zeros that stripping left in the header's place
    FlipGap { pos: u64, bit: u8 },
}

fn mutation() -> BoxedStrategy<Mut> {
    prop_oneof![
        6 => (any::<u64>(), 0u8..8).prop_map(|(pos, bit)| Mut::FlipHeader { pos, bit }),
        4 => (any::<u64>(), 0u8..8).prop_map(|(pos, bit)| Mut::FlipBody { pos, bit }),
        3 => (0u64..4, -20i64..20, 0u8..8).prop_map(|(block, delta, bit)| Mut::FlipNear { block, delta, bit }),
        2 => (0u64..48, prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 0xDE, 0x0C, 0x0E, 255])).prop_map(|(pos, val)| Mut::SetHeader { pos, val }),
        2 => any::<u64>().prop_map(|keep| Mut::Truncate { keep }),
        2 => (1u64..40).prop_map(|cut| Mut::TruncateTail { cut }),
        3 => (0u64..4).prop_map(|keep| Mut::TruncateBlocks { keep }),
        2 => (prop::sample::select(vec![1u64, 15, 16, 17, 1000, 1_048_592]), any::<u64>()).prop_map(|(n, seed)| Mut::Append { n, seed }),
        1 => Just(Mut::AppendBlock),
        2 => (0u64..4, 0u64..4).prop_map(|(a, b)| Mut::SwapBlocks { a, b }),
        1 => (0u64..4).prop_map(|a| Mut::DupBlock { a }),
        2 => (0u64..4).prop_map(|a| Mut::DropBlock { a }),
        1 => (0u64..4, 0u64..4).prop_map(|(from, to)| Mut::CopyBlock { from, to }),
        1 => (any::<u64>(), 1u64..40).prop_map(|(at, n)| Mut::InsertZero { at, n }),
        1 => Just(Mut::OtherBody),
        1 => Just(Mut::OtherHeader),
        1 => (0u64..4).prop_map(|a| Mut::OtherBlock { a }),
        1 => (0u64..4).prop_map(|a| Mut::ZeroBlock { a }),
        2 => (any::<u64>(), 0u8..8).prop_map(|(pos, bit)| Mut::FlipGap { pos, bit }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Tamper {
    spec: Spec,
    slot: usize,
    data: Data,
    detached: bool,
    /// detached, and the file still has the header's place
    #[serde(default)]
    stripped: bool,
    muts: Vec<Mut>,
    read: Chunk,
}

pub fn spec(versions: Vec<u8>, memory: bool) -> BoxedStrategy<Spec> {
    (
        prop::sample::select(versions),
        prop::sample::select(ALGS.to_vec()),
        if memory { prop::bool::weighted(0.2).boxed() } else { Just(false).boxed() },
        vec((prop::sample::select(refc::KDFS.to_vec()), password()), 1..=4),
        prop_oneof![7 => any::<u64>(), 1 => any::<u32>().prop_map(|k| refc::PLAIN | u64::from(k))],
    )
        .prop_map(|(version, alg, memory, mut slots, seed)| {
            // distinct passwords, so that each opens its own slot
            for i in 1..slots.len() {
                while slots[..i].iter().any(|(_, p)| *p == slots[i].1) {
                    slots[i].1.push(i as u8);
                }
            }
            if version < 5 {
                slots.truncate(1);
            }
            Spec { version, alg, memory, slots, seed }
        })
        .boxed()
}

fn tamper_strategy() -> BoxedStrategy<Tamper> {
    (spec(vec![1, 2, 3, 4, 4, 5, 5, 5, 5], true), 0usize..4, data(3), 0u8..4, vec(mutation(), 6..14), chunk())
        .prop_map(|(spec, slot, data, how, muts, read)| Tamper { detached: how >= 2, stripped: how == 3, slot: slot % spec.slots.len(), spec, data, muts, read })
        .boxed()
}

const UNIT: usize = BLOCK + 16;

/// Whether the header bytes at `pos` are bound to the file by its authentication, for a reader
/// who opens slot `slot`.
fn header_bound(h: &Hdr, slot: usize, pos: usize) -> bool {
    let k = h.alg.nonce_len();
    let n = h.nonce_len();
    match h.version {
        // no header authentication before V3: but everything the decryption depends on
        1 => pos < 22 || (38..38 + n).contains(&pos),
        2 => pos < 22 + n,
        3 | 4 => true,
        _ => {
            let s = 32 + 96 * slot;
            pos < 32 || (s..s + 50 + k).contains(&pos) || (s + 74..s + 90).contains(&pos)
        }
    }
}

fn apply(m: &Mut, hdr: &Hdr, slot: usize, header: &mut Vec<u8>, body: &mut Vec<u8>, c: &Tamper, key: &[u8; 32]) -> (bool, &'static str) {
    // returns: must the change be refused
    let units = body.len().div_ceil(UNIT).max(1);
    let range = |i: u64| {
        let i = i as usize % units;
        i * UNIT..((i + 1) * UNIT).min(body.len())
    };
    match m {
        Mut::FlipHeader { pos, bit } => {
            let p = *pos as usize % header.len();
            header[p] ^= 1 << bit;
            (header_bound(hdr, slot, p), "flip_header")
        }
        Mut::SetHeader { pos, val } => {
            let p = *pos as usize % header.len();
            let same = header[p] == *val;
            header[p] = *val;
            (!same && header_bound(hdr, slot, p), "set_header")
        }
        Mut::FlipBody { pos, bit } => {
            let p = *pos as usize % body.len();
            body[p] ^= 1 << bit;
            (true, "flip_body")
        }
        Mut::FlipNear { block, delta, bit } => {
            let p = ((*block % units as u64) as i64 * UNIT as i64 + delta).clamp(0, body.len() as i64 - 1) as usize;
            body[p] ^= 1 << bit;
            (true, "flip_near_boundary")
        }
        Mut::Truncate { keep } => {
            let k = *keep as usize % body.len();
            body.truncate(k);
            (true, "truncate")
        }
        Mut::TruncateTail { cut } => {
            let k = body.len().saturating_sub(*cut as usize);
            body.truncate(k);
            (true, "truncate_tail")
        }
        Mut::TruncateBlocks { keep } => {
            let k = (*keep as usize % units) * UNIT;
            let k = if k >= body.len() { 0 } else { k };
            body.truncate(k);
            (true, "truncate_at_block")
        }
        Mut::Append { n, seed } => {
            body.extend(prand(*seed, *n as usize));
            (true, "append")
        }
        Mut::AppendBlock => {
            let b = body[range(0)].to_vec();
            body.extend(b);
            (true, "append_block")
        }
        Mut::SwapBlocks { a, b } => {
            let (ra, rb) = (range(*a), range(*b));
            let (lo, hi) = if ra.start <= rb.start { (ra, rb) } else { (rb, ra) };
            if lo == hi {
                return (false, "noop");
            }
            let mut v = body[..lo.start].to_vec();
            v.extend_from_slice(&body[hi.clone()]);
            v.extend_from_slice(&body[lo.end..hi.start]);
            v.extend_from_slice(&body[lo.clone()]);
            v.extend_from_slice(&body[hi.end..]);
            let same = v == *body;
            *body = v;
            (!same, "swap_blocks")
        }
        Mut::DupBlock { a } => {
            let r = range(*a);
            let blk = body[r.clone()].to_vec();
            body.splice(r.end..r.end, blk);
            (true, "dup_block")
        }
        Mut::DropBlock { a } => {
            let r = range(*a);
            body.drain(r);
            (true, "drop_block")
        }
        Mut::CopyBlock { from, to } => {
            let (f, t) = (range(*from), range(*to));
            if f == t {
                return (false, "noop");
            }
            let blk = body[f].to_vec();
            body.splice(t, blk);
            (true, "copy_block")
        }
        Mut::InsertZero { at, n } => {
            let p = *at as usize % (body.len() + 1);
            body.splice(p..p, std::iter::repeat(0).take(*n as usize));
            (true, "insert")
        }
        Mut::OtherBody => {
            let mut s = c.spec.clone();
            s.seed ^= 0x5555;
            *body = s.build(&c.data.bytes()).body;
            (true, "other_body")
        }
        Mut::OtherHeader => {
            let mut s = c.spec.clone();
            s.seed ^= 0x3333;
            *header = s.build(b"").header;
            (true, "other_header")
        }
        Mut::OtherBlock { a } => {
            // ciphertext of the same position under a different associated header
            let mut h2 = hdr.clone();
            h2.nonce.iter_mut().for_each(|b| *b ^= 1);
            let other = h2.body_seal(key, &c.data.bytes());
            let r = range(*a);
            if r.is_empty() {
                return (false, "noop");
            }
            body[r.clone()].copy_from_slice(&other[r]);
            (true, "other_block")
        }
        Mut::ZeroBlock { a } => {
            let r = range(*a);
            body[r].fill(0);
            (true, "zero_block")
        }
        Mut::FlipGap { .. } => (false, "noop"),
    }
}

fn tamper(c: &Tamper, cov: &mut Cov) -> Res {
    let pt = c.data.bytes();
    let built = c.spec.build(&pt);
    let pw = &c.spec.slots[c.slot].1;
    // the untouched file decrypts
    let (r, got) = if c.detached {
        let gap = if c.stripped { vec![0; built.header.len()] } else { vec![] };
        ops::decrypt_bytes(pw, &[gap, built.body.clone()].concat(), Some(&built.header))
    } else {
        ops::decrypt_bytes(pw, &built.file(), None)
    };
    ensure!(r.is_ok() && got == pt, "untouched file does not decrypt: {r:?}");
    for (i, m) in c.muts.iter().enumerate() {
        let (mut header, mut body) = (built.header.clone(), built.body.clone());
        let (mut must_fail, mut label) = apply(m, &built.hdr, c.slot, &mut header, &mut body, c, &built.key);
        if c.stripped {
            let mut gap = vec![0; header.len()];
            if let Mut::FlipGap { pos, bit } = m {
                let p = *pos as usize % gap.len();
                gap[p] ^= 1 << bit;
                (must_fail, label) = (true, "flip_gap");
            }
            body.splice(..0, gap);
        }
        cov.label(label);
        let inp;
        let hdr;
        if c.detached {
            inp = MemFile::new(body).chunks(&c.read, &Chunk::Full).cell();
            hdr = Some(MemFile::new(header).chunks(&c.read, &Chunk::Full).cell());
        } else {
            inp = MemFile::new([&header[..], &body[..]].concat()).chunks(&c.read, &Chunk::Full).cell();
            hdr = None;
        }
        let out = MemFile::new(vec![]).cell();
        let r = guard(|| ops::decrypt(pw, &inp, &out, hdr.as_ref())).map_err(|p| format!("mutation {i} {m:?}: panic {p}"))?;
        let got = out.borrow().contents();
        match r {
            Ok(()) => {
                ensure!(!must_fail, "mutation {i} {m:?} was accepted");
                ensure!(got == pt, "mutation {i} {m:?}: accepted with different output");
                cov.label("accepted_unauthenticated");
            }
            Err(_) => {
                if got.len() > pt.len() || pt[..got.len()] != got[..] {
                    fail!("mutation {i} {m:?}: released {} bytes that are not a prefix of the original", got.len());
                }
                if c.spec.memory {
                    ensure!(got.is_empty(), "mutation {i} {m:?}: failed but released output");
                }
                cov.label("refused");
            }
        }
        if must_fail {
            cov.nontrivial();
        }
    }
    cov.evals(c.muts.len() as u64);
    cov.label(format!("v{}", c.spec.version));
    Ok(())
}

/// Every single byte of a small file, every bit position class.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Sweep {
    version: u8,
    alg: Alg,
    memory: bool,
    len: usize,
    bit: u8,
}
fn sweep(c: &Sweep, cov: &mut Cov) -> Res {
    let pt = prand(77, c.len);
    let spec = Spec {
        version: c.version,
        alg: c.alg,
        memory: c.memory,
        slots: vec![(5, b"first".to_vec()), (3, b"second".to_vec())],
        seed: 9,
    };
    let built = spec.build(&pt);
    let file = built.file();
    for pos in 0..file.len() {
        let mut f = file.clone();
        f[pos] ^= 1 << c.bit;
        let must = pos >= built.header.len() || header_bound(&built.hdr, 0, pos);
        let (r, got) = ops::decrypt_bytes(b"first", &f, None);
        match r {
            Ok(()) => {
                ensure!(!must, "flip of bit {} at byte {pos} accepted", c.bit);
                ensure!(got == pt, "flip at byte {pos}: wrong output accepted");
            }
            Err(_) => ensure!(got.is_empty(), "flip at byte {pos}: refused but output released"),
        }
    }
    for keep in 0..file.len() {
        let (r, got) = ops::decrypt_bytes(b"first", &file[..keep], None);
        ensure!(r.is_err() && got.is_empty(), "truncation to {keep} bytes accepted");
    }
    cov.evals(2 * file.len() as u64 - 1);
    cov.nontrivial();
    Ok(())
}

/// Unpacking a modified archive is refused before any file of it is made.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TamperPacked {
    pw: Vec<u8>,
    cfg: Cfg,
    detached: bool,
    sizes: Vec<u32>,
    /// (in the header, position, change, kind)
    muts: Vec<(bool, u32, u8, u8)>,
}

fn tamper_packed_strategy() -> BoxedStrategy<TamperPacked> {
    (
        password(),
        cfg(),
        any::<bool>(),
        vec(prop_oneof![6 => 0u32..2000, 1 => (BLOCK as u32 - 600)..(BLOCK as u32 + 200)], 0..4),
        vec((prop::bool::weighted(0.3), any::<u32>(), 1u8.., 0u8..7), 1..5),
    )
        .prop_map(|(pw, cfg, detached, sizes, muts)| TamperPacked { pw, cfg, detached, sizes, muts })
        .boxed()
}

fn tamper_packed(c: &TamperPacked, cov: &mut Cov) -> Res {
    use crate::stor::MemStorage;
    use std::sync::Arc;
    let s = Arc::new(MemStorage::new());
    s.mkdir("src");
    for (i, n) in c.sizes.iter().enumerate() {
        s.put(format!("src/f{i}"), prand(i as u64, *n as usize));
    }
    let (out, hdr) = super::arch::pack_mem(&s, "src", &c.pw, &c.cfg, c.detached, zip::CompressionMethod::Stored)?;
    let hl = refc::header_len(c.cfg.version);
    let (head, body) = match &hdr {
        Some(h) => (h.clone(), out.clone()),
        None => (out[..hl].to_vec(), out[hl..].to_vec()),
    };
    let Some(parsed) = Hdr::parse(&head) else { fail!("packing wrote no header that conforms to the format") };
    for (in_head, pos, x, kind) in &c.muts {
        let (mut h, mut b) = (head.clone(), body.clone());
        if *in_head {
            let p = *pos as usize % h.len();
            if !header_bound(&parsed, 0, p) {
                continue;
            }
            h[p] ^= x;
            cov.label("header");
        } else {
            let p = *pos as usize % b.len();
            match kind {
                0 => b.truncate(p),
                1 => b.extend(prand(u64::from(*pos), 1 + *x as usize)),
                2 if b.len() > BLOCK + 16 => {
                    b.drain(..BLOCK + 16);
                }
                // the whole last block is missing
                3 => b.truncate((b.len() - 1) / (BLOCK + 16) * (BLOCK + 16)),
                4 => b[p..].fill(0),
                _ => b[p] ^= x,
            }
            if b == body {
                continue;
            }
            cov.label(format!("body{kind}"));
        }
        let t = Arc::new(MemStorage::new());
        let r = match &hdr {
            Some(_) => super::arch::unpack_mem(&t, &b, Some(&h), &c.pw, "dest"),
            None => super::arch::unpack_mem(&t, &[h, b].concat(), None, &c.pw, "dest"),
        };
        ensure!(r.is_err(), "a modified archive is unpacked: {:?}", (in_head, pos, x, kind));
        let left = t.snapshot();
        ensure!(left.is_empty(), "unpacking a modified archive left {:?}", left.keys().collect::<Vec<_>>());
        cov.nontrivial();
    }
    cov.evals(c.muts.len() as u64);
    Ok(())
}

pub fn c02(ctx: &Ctx) {
    ctx.check("tamper", ctx.scale(420, 9000), tamper_strategy, tamper);
    ctx.check("tamper_unpack", ctx.scale(400, 8000), tamper_packed_strategy, tamper_packed);
    let mut cases = vec![];
    for version in 1..=5 {
        for alg in ALGS {
            for memory in [false, true] {
                for len in [0, 1, 40] {
                    for bit in [0, 7] {
                        cases.push(Sweep { version, alg, memory, len, bit });
                    }
                }
            }
        }
    }
    ctx.enumerate("every_byte", cases, sweep);
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wrong {
    spec: Spec,
    data: Data,
    detached: bool,
    near: Vec<(u8, u64)>,
    new_kdf: Kdf,
}

fn wrong_strategy() -> BoxedStrategy<Wrong> {
    (
        spec(vec![1, 2, 3, 4, 5, 5, 5], true),
        data_of(prop_oneof![6 => small_len(), 1 => len_strategy(2)].boxed()),
        any::<bool>(),
        vec((any::<u8>(), any::<u64>()), 4..10),
        prop::sample::select(refc::KDFS.to_vec()),
    )
        .prop_map(|(spec, data, detached, near, new_kdf)| Wrong { spec, data, detached, near, new_kdf })
        .boxed()
}

fn wrong(c: &Wrong, cov: &mut Cov) -> Res {
    use tools::key::Error as KE;
    let pt = c.data.bytes();
    let b = c.spec.build(&pt);
    let file = b.file();
    for (_, pw) in &c.spec.slots {
        let (r, got) = if c.detached { ops::decrypt_bytes(pw, &b.body, Some(&b.header)) } else { ops::decrypt_bytes(pw, &file, None) };
        ensure!(r.is_ok() && got == pt, "the right password {pw:?} is refused: {r:?}");
    }
    for (i, (how, seed)) in c.near.iter().enumerate() {
        let base = &c.spec.slots[i % c.spec.slots.len()].1;
        let bad = near_miss(base, *how, *seed);
        if c.spec.slots.iter().any(|(_, p)| *p == bad) {
            continue;
        }
        cov.nontrivial();
        cov.label(format!("near_miss_{}", how % 14));
        let (r, got) = if c.detached { ops::decrypt_bytes(&bad, &b.body, Some(&b.header)) } else { ops::decrypt_bytes(&bad, &file, None) };
        ensure!(r.is_err(), "wrong password {bad:?} accepted for {base:?}");
        ensure!(got.is_empty(), "wrong password released {} bytes", got.len());
        if c.spec.version == 5 {
            let h = MemFile::new(file.clone()).cell();
            let r = match i % 4 {
                0 => ops::key_verify(&h, &bad),
                1 => ops::key_add(&h, &bad, b"new", c.new_kdf),
                2 => ops::key_change(&h, &bad, b"new", c.new_kdf),
                _ => ops::key_delete(&h, &bad),
            };
            // a full header is a second reason to refuse an added key
            let full = i % 4 == 1 && c.spec.slots.len() == 4 && matches!(r, Err(KE::TooManyKeyslots));
            ensure!(matches!(r, Err(KE::IncorrectKey)) || full, "key operation {} with a wrong password: {r:?}", i % 4);
            ensure!(h.borrow().contents() == file, "key operation with a wrong password changed the file");
            cov.label("key_op");
        }
    }
    cov.evals(c.near.len() as u64 * 2);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrongUnpack {
    pw: Vec<u8>,
    near: (u8, u64),
    cfg: Cfg,
    detached: bool,
    n: usize,
}

fn wrong_unpack(c: &WrongUnpack, cov: &mut Cov) -> Res {
    use crate::stor::MemStorage;
    use std::sync::Arc;
    let s = Arc::new(MemStorage::new());
    s.mkdir("src");
    for i in 0..c.n {
        s.put(format!("src/f{i}"), prand(i as u64, 100 * i));
    }
    let (out, hdr) = super::arch::pack_mem(&s, "src", &c.pw, &c.cfg, c.detached, zip::CompressionMethod::Stored)?;
    let bad = near_miss(&c.pw, c.near.0, c.near.1);
    let t = Arc::new(MemStorage::new());
    let r = super::arch::unpack_mem(&t, &out, hdr.as_deref(), &bad, "dest");
    ensure!(r.is_err(), "unpacking with a wrong password succeeded");
    let left = t.snapshot();
    ensure!(left.is_empty(), "unpacking with a wrong password left {:?}", left.keys().collect::<Vec<_>>());
    cov.nontrivial();
    Ok(())
}

pub fn c03(ctx: &Ctx) {
    ctx.check("wrong_password", ctx.scale(8_000, 180_000), wrong_strategy, wrong);
    ctx.check(
        "wrong_password_unpack",
        ctx.scale(800, 16_000),
        || {
            (password(), (any::<u8>(), any::<u64>()), cfg(), any::<bool>(), 0usize..4)
                .prop_map(|(pw, near, cfg, detached, n)| WrongUnpack { pw, near, cfg, detached, n })
                .boxed()
        },
        wrong_unpack,
    );
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ToRef {
    data: Data,
    pw: Vec<u8>,
    cfg: Cfg,
    detached: bool,
}

fn to_ref(c: &ToRef, cov: &mut Cov) -> Res {
    let pt = c.data.bytes();
    let inp = MemFile::new(pt.clone()).cell();
    let out = MemFile::new(vec![]).cell();
    let hdr = MemFile::new(vec![]).cell();
    ops::encrypt(c.cfg.version, c.cfg.alg, c.cfg.kdf, &c.pw, &inp, &out, c.detached.then_some(&hdr)).map_err(|e| format!("encrypt: {e}"))?;
    let out = out.borrow().contents();
    let hdr = hdr.borrow().contents();
    let hl = refc::header_len(c.cfg.version);
    let (head, body) = if c.detached {
        (&hdr[..], &out[..])
    } else {
        ensure!(out.len() >= hl, "output shorter than a header");
        out.split_at(hl)
    };
    ensure!(head.len() == hl, "header is {} bytes, the format says {hl}", head.len());
    let Some(h) = Hdr::parse(head) else { fail!("the header does not conform to the format: {:02x?}", head) };
    ensure!(h.version == c.cfg.version && h.alg == c.cfg.alg && !h.memory, "header describes another configuration: {h:?}");
    ensure!(h.slots.len() == 1 && h.slots[0].kdf == c.cfg.kdf, "keyslots: {:?}", h.slots);
    let Some((key, _)) = h.unlock(&c.pw) else { fail!("the password does not open the key slot by the format's rules") };
    let want = pt.len() + 16 * (pt.len() / BLOCK + 1);
    ensure!(body.len() == want, "body is {} bytes, the format says {want}", body.len());
    let Some(got) = h.body_open(&key, body) else { fail!("body does not decrypt by the format's rules") };
    ensure!(got == pt, "body decrypts to something else by the format's rules");
    cov.label(format!("v{}/{:?}/kdf{}", c.cfg.version, c.cfg.alg, c.cfg.kdf));
    if !pt.is_empty() {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FromRef {
    spec: Spec,
    data: Data,
    detached: bool,
    stripped: bool,
    read: Chunk,
}

fn from_ref(c: &FromRef, cov: &mut Cov) -> Res {
    let pt = c.data.bytes();
    let b = c.spec.build(&pt);
    for (_, pw) in &c.spec.slots {
        let file = match (c.detached, c.stripped) {
            (false, _) => b.file(),
            (true, false) => b.body.clone(),
            (true, true) => [vec![0; b.header.len()], b.body.clone()].concat(),
        };
        let inp = MemFile::new(file).chunks(&c.read, &Chunk::Full).cell();
        let hdr = MemFile::new(b.header.clone()).chunks(&c.read, &Chunk::Full).cell();
        let out = MemFile::new(vec![]).cell();
        let seen = std::rc::Rc::new(std::cell::RefCell::new(None));
        let seen2 = seen.clone();
        let r = tools::decrypt::execute(tools::decrypt::Request {
            header_reader: c.detached.then_some(&hdr),
            reader: &inp,
            writer: &out,
            raw_key: ops::prot(pw),
            on_decrypted_header: Some(Box::new(move |t| {
                *seen2.borrow_mut() = Some((ops::version_no(&t.version), t.algorithm.clone(), matches!(t.mode, corecrypto::primitives::Mode::MemoryMode)));
            })),
        });
        ensure!(r.is_ok(), "a conforming file is refused: {}", r.unwrap_err());
        ensure!(out.borrow().contents() == pt, "a conforming file decrypts to something else");
        let seen = seen.borrow().clone();
        ensure!(seen == Some((c.spec.version, c.spec.alg.lib(), c.spec.memory)), "reported header type is wrong");
    }
    cov.evals(c.spec.slots.len() as u64 - 1);
    cov.label(format!("v{}/{:?}{}", c.spec.version, c.spec.alg, if c.spec.memory { "/memory" } else { "" }));
    if c.detached && c.stripped {
        cov.label("stripped");
    }
    if !pt.is_empty() {
        cov.nontrivial();
    }
    Ok(())
}

/// KDF parameters: the library's hash function against the reference's constants.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KdfCase {
    kdf: i32,
    argon: bool,
    pw: Vec<u8>,
    salt: [u8; 16],
}
fn kdf_case(c: &KdfCase, cov: &mut Cov) -> Res {
    use corecrypto::header::HashingAlgorithm as H;
    let h = if c.argon { H::Argon2id(c.kdf) } else { H::Blake3Balloon(c.kdf) };
    let r = h.hash(ops::prot(&c.pw), &c.salt);
    let valid = if c.argon { (1..=3).contains(&c.kdf) } else { (4..=5).contains(&c.kdf) };
    match r {
        Ok(k) => {
            ensure!(valid, "unknown parameter set {} accepted", c.kdf);
            ensure!(*k.expose() == refc::kdf(c.kdf as u8, &c.pw, &c.salt), "password hash {} differs from the format's", c.kdf);
            cov.nontrivial();
            cov.label(format!("kdf{}", c.kdf));
        }
        Err(_) => ensure!(!valid, "password hash {} refused", c.kdf),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Golden {
    name: String,
    pw: String,
    file: String,
    header: String,
    plain: String,
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn golden(c: &Golden, cov: &mut Cov) -> Res {
    let hdr = (!c.header.is_empty()).then(|| unhex(&c.header));
    let (r, got) = ops::decrypt_bytes(c.pw.as_bytes(), &unhex(&c.file), hdr.as_deref());
    ensure!(r.is_ok(), "file written by an earlier release is refused: {} ({})", r.unwrap_err(), c.name);
    ensure!(got == unhex(&c.plain), "file written by an earlier release decrypts to something else ({})", c.name);
    cov.nontrivial();
    Ok(())
}

pub fn make_golden() {
    argon2::verif::REAL.store(true, std::sync::atomic::Ordering::Relaxed);
    balloon_hash::verif::REAL.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut v = vec![];
    for (version, alg, memory, kdf) in [(1, Alg::XChaCha, false, 1), (2, Alg::Aes, true, 2), (3, Alg::Deoxys, false, 3), (4, Alg::Aes, false, 4), (5, Alg::XChaCha, false, 5), (5, Alg::Deoxys, false, 3)] {
        let spec = Spec { version, alg, memory, slots: vec![(kdf, b"golden password".to_vec())], seed: u64::from(version) };
        let pt = format!("golden plaintext {version} {alg:?}").into_bytes();
        let b = spec.build(&pt);
        v.push(Golden { name: format!("v{version}-{alg:?}-kdf{kdf}"), pw: "golden password".into(), file: hex(&b.file()), header: String::new(), plain: hex(&pt) });
    }
    println!("{}", serde_json::to_string_pretty(&v).unwrap());
}

/// Counters of more than eight bits: contents of more than 256 blocks, in both directions.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    alg: Alg,
    version: u8,
    data: Data,
}
fn long(c: &Long, cov: &mut Cov) -> Res {
    let pt = c.data.bytes();
    let spec = Spec { version: c.version, alg: c.alg, memory: false, slots: vec![(if c.version == 4 { 4 } else { 5 }, b"long".to_vec())], seed: c.data.seed };
    {
        let file = spec.build(&pt).file();
        let (r, got) = ops::decrypt_bytes(b"long", &file, None);
        ensure!(r.is_ok(), "a conforming file of {} bytes is refused: {}", pt.len(), r.unwrap_err());
        ensure!(got == pt, "a conforming file of {} bytes decrypts to something else", pt.len());
    }
    let file = ops::encrypt_bytes(c.version, c.alg, spec.slots[0].0, b"long", &pt)?;
    let (head, body) = file.split_at(refc::header_len(c.version));
    let h = Hdr::parse(head).ok_or("the header does not conform to the format")?;
    let (key, _) = h.unlock(b"long").ok_or("the password does not open the key slot")?;
    let got = h.body_open(&key, body);
    ensure!(got.is_some_and(|g| g == pt), "what is written for {} bytes does not decrypt by the format's rules", pt.len());
    cov.label(format!("{:?}", c.alg));
    cov.nontrivial();
    Ok(())
}

pub fn c04(ctx: &Ctx) {
    ctx.check(
        "long",
        ctx.scale(2, 24),
        || {
            (prop::sample::select(ALGS.to_vec()), 4u8..=5, 256usize..290, prop::sample::select(vec![0usize, 1, 700_000]), any::<u64>())
                .prop_map(|(alg, version, n, d, seed)| Long { alg, version, data: Data { len: n * MIB + d, fill: 3, seed } })
                .boxed()
        },
        long,
    );
    ctx.check(
        "written_conforms",
        ctx.scale(1200, 20_000),
        || {
            (data_of(prop_oneof![8 => small_len(), 2 => len_strategy(3)].boxed()), password(), cfg(), any::<bool>())
                .prop_map(|(data, pw, cfg, detached)| ToRef { data, pw, cfg, detached })
                .boxed()
        },
        to_ref,
    );
    ctx.check(
        "conforming_is_read",
        ctx.scale(1200, 20_000),
        || {
            (spec(vec![1, 2, 3, 4, 5, 5], true), data_of(prop_oneof![8 => small_len(), 2 => len_strategy(3)].boxed()), any::<bool>(), any::<bool>(), chunk())
                .prop_map(|(spec, data, detached, stripped, read)| FromRef { spec, data, detached, stripped, read })
                .boxed()
        },
        from_ref,
    );
    ctx.check(
        "password_hash",
        ctx.scale(600, 6000),
        || {
            (-2i32..9, any::<bool>(), password(), any::<[u8; 16]>()).prop_map(|(kdf, argon, pw, salt)| KdfCase { kdf, argon, pw, salt }).boxed()
        },
        kdf_case,
    );
    if ctx.replay.is_none() || ctx.replay.as_ref().is_some_and(|r| r.0 == "golden") {
        argon2::verif::REAL.store(true, std::sync::atomic::Ordering::Relaxed);
        balloon_hash::verif::REAL.store(true, std::sync::atomic::Ordering::Relaxed);
        let v: Vec<Golden> = serde_json::from_str(include_str!("../../golden.json")).unwrap();
        ctx.enumerate("golden", v, golden);
        argon2::verif::REAL.store(false, std::sync::atomic::Ordering::Relaxed);
        balloon_hash::verif::REAL.store(false, std::sync::atomic::Ordering::Relaxed);
    }
}
