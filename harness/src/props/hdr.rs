//! C05 header codec, C06 key slots, C07 refused operations, C08 dump / strip / restore.

use super::crypt::*;
use super::*;
use crate::data::*;
use crate::fw::*;
use crate::io::*;
use crate::ops;
use crate::refc::{self, Alg, Hdr, Kdf, Slot, Spec, ALGS};
use crate::{ensure, fail};
use corecrypto::header::{Header, Keyslot};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};

// ------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fields {
    version: u8,
    alg: Alg,
    memory: bool,
    slots: Vec<Kdf>,
    seed: u64,
    before: usize,
    after: usize,
    read: Chunk,
    write: Chunk,
    flips: Vec<(usize, u8)>,
    /// changes behind the tag and type: fields, keyslots and padding
    noise: Vec<(u16, u8)>,
}

fn fields() -> BoxedStrategy<Fields> {
    (
        (1u8..=5, prop::sample::select(ALGS.to_vec()), any::<bool>(), vec(prop::sample::select(refc::KDFS.to_vec()), 0..=4)),
        any::<u64>(),
        prop_oneof![Just(0usize), 0usize..700],
        prop_oneof![Just(0usize), 0usize..700],
        chunk_tiny(),
        chunk_tiny(),
        vec((0usize..6, any::<u8>()), 0..4),
        vec((prop_oneof![2 => 6u16..50, 1 => 6u16..416], 1u8..), 0..4),
    )
        .prop_map(|((version, alg, memory, slots), seed, before, after, read, write, flips, noise)| Fields { version, alg, memory, slots, seed, before, after, read, write, flips, noise })
        .boxed()
}

fn mk(c: &Fields) -> Hdr {
    let k = c.alg.nonce_len();
    let r = prand(c.seed, 1000);
    let mut h = Hdr {
        version: c.version,
        alg: c.alg,
        memory: c.memory,
        nonce: r[..k - if c.memory { 0 } else { 4 }].to_vec(),
        salt: r[100..116].to_vec(),
        slots: vec![],
    };
    if c.version >= 4 {
        let n = if c.version == 4 { 1 } else { c.slots.len() };
        for i in 0..n {
            let o = 200 + 120 * i;
            h.slots.push(Slot {
                kdf: if c.version == 4 { 4 } else { c.slots[i] },
                enc: r[o..o + 48].to_vec(),
                nonce: r[o + 48..o + 48 + k].to_vec(),
                salt: if c.version == 4 { h.salt.clone() } else { r[o + 80..o + 96].to_vec() },
            });
        }
    }
    if c.version == 5 {
        h.salt = vec![];
    }
    h
}

fn lib_header(h: &Hdr) -> Header {
    Header {
        header_type: ops::header_type(h.version, h.alg, h.memory),
        nonce: h.nonce.clone(),
        salt: if h.version <= 3 { Some(h.salt.clone().try_into().unwrap()) } else { None },
        keyslots: (h.version >= 4).then(|| {
            h.slots
                .iter()
                .map(|s| Keyslot {
                    hash_algorithm: refc::kdf_lib(s.kdf),
                    encrypted_key: s.enc.clone().try_into().unwrap(),
                    nonce: s.nonce.clone(),
                    salt: s.salt.clone().try_into().unwrap(),
                })
                .collect()
        }),
    }
}

fn codec(c: &Fields, cov: &mut Cov) -> Res {
    let h = mk(c);
    let want = h.bytes();
    let lib = lib_header(&h);
    ensure!(lib.get_size() as usize == want.len(), "size reported as {}", lib.get_size());
    match lib.serialize() {
        Ok(got) => {
            ensure!(c.version >= 3, "a version {} header was written", c.version);
            ensure!(got == want, "serialized header differs at byte {:?}", diff(&got, &want));
            let aad = lib.create_aad().map_err(|e| format!("create_aad: {e}"))?;
            ensure!(aad == h.aad(), "authenticated data for writing differs at {:?}", diff(&aad, &h.aad()));
            let mut w = MemFile::new(vec![]).chunks(&Chunk::Full, &c.write);
            lib.write(&mut w).map_err(|e| format!("write: {e}"))?;
            w.flush().unwrap();
            let written = w.contents();
            ensure!(written == want, "a writer that accepts few bytes at a time received {} of {} header bytes", written.len(), want.len());
        }
        Err(e) => ensure!(c.version < 3, "serializing failed: {e}"),
    }
    // reading it back from the middle of something
    let bytes = [prand(1, c.before), want.clone(), prand(2, c.after)].concat();
    let mut r = MemFile::new(bytes).chunks(&c.read, &Chunk::Full);
    r.pos = c.before as u64;
    let (got, aad) = Header::deserialize(&mut r).map_err(|e| format!("a well-formed header is refused: {e}"))?;
    ensure!(r.pos == (c.before + want.len()) as u64, "reader left at {} instead of the end of the header", r.pos as i64 - c.before as i64);
    let mut rest = vec![];
    r.read_to_end(&mut rest).unwrap();
    ensure!(rest == prand(2, c.after), "bytes after the header disturbed");
    ensure!(aad == h.aad(), "authenticated data on reading differs at {:?}", diff(&aad, &h.aad()));
    ensure!(ops::version_no(&got.header_type.version) == c.version && got.header_type.algorithm == c.alg.lib(), "header type read back wrong");
    ensure!(matches!(got.header_type.mode, corecrypto::primitives::Mode::MemoryMode) == c.memory, "mode read back wrong");
    ensure!(got.nonce == h.nonce, "nonce read back wrong");
    if c.version <= 4 {
        ensure!(got.salt.map(|s| s.to_vec()) == Some(h.salt.clone()), "salt read back wrong");
    }
    let slots = got.keyslots.as_ref().map_or(0, Vec::len);
    ensure!(slots == h.slots.len(), "{slots} key slots read for {}", h.slots.len());
    for (a, b) in got.keyslots.iter().flatten().zip(&h.slots) {
        ensure!(a.hash_algorithm == refc::kdf_lib(b.kdf) && a.encrypted_key[..] == b.enc[..] && a.nonce == b.nonce && a.salt[..] == b.salt[..], "a key slot was read back wrong");
    }
    if c.version >= 3 {
        ensure!(got.serialize().ok() == Some(want.clone()), "read and written again, the header differs");
        ensure!(got.create_aad().ok() == Some(aad), "authenticated data recomputed after reading differs");
    }
    // refused: cut short, or with a tag that means nothing
    for cut in [0, 1, 2, 5, want.len() / 2, want.len() - 1] {
        let mut r = MemFile::new(want[..cut].to_vec()).chunks(&c.read, &Chunk::Full);
        ensure!(Header::deserialize(&mut r).is_err(), "a header cut to {cut} bytes is accepted");
    }
    for (pos, val) in &c.flips {
        let mut b = want.clone();
        b[*pos] = *val;
        let valid = match pos {
            0 => *val == 0xDE,
            1 => (1..=5).contains(val),
            2 => *val == 0x0E,
            3 => (1..=3).contains(val),
            4 => *val == 0x0C,
            _ => (1..=2).contains(val),
        };
        b.resize(416, 0);
        let ok = Header::deserialize(&mut MemFile::new(b)).is_ok();
        if !valid {
            ensure!(!ok, "a header whose byte {pos} is {val:#x} is accepted");
        }
    }
    // what is authenticated are the bytes as they stand in the file, padding included
    if !c.noise.is_empty() {
        let mut b = want.clone();
        for (p, x) in &c.noise {
            let p = 6 + (*p as usize - 6) % (b.len() - 6);
            b[p] ^= x;
        }
        if let Ok((_, aad)) = Header::deserialize(&mut MemFile::new(b.clone())) {
            let bound = match c.version {
                1 | 2 => vec![],
                3 => b,
                4 => [&b[..48], &b[96 + c.alg.nonce_len()..]].concat(),
                _ => b[..32].to_vec(),
            };
            ensure!(aad == bound, "authenticated data on reading altered bytes differs at {:?}", diff(&aad, &bound));
            cov.label("altered");
        }
    }
    cov.label(format!("v{}/{:?}/{}slots", c.version, c.alg, h.slots.len()));
    cov.nontrivial();
    Ok(())
}

pub fn c05(ctx: &Ctx) {
    ctx.check("codec", ctx.scale(48_000, 2_000_000), fields, codec);
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Serialize, Deserialize)]
enum KOp {
    Add { old: u8, new: u8, kdf: Kdf },
    Change { old: u8, new: u8, kdf: Kdf },
    Delete { pw: u8 },
    Verify { pw: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KHist {
    alg: Alg,
    kdf: Kdf,
    pool: Vec<Vec<u8>>,
    data: Data,
    detached: bool,
    ops: Vec<KOp>,
    chunks: (Chunk, Chunk),
    /// a file that another program wrote: its seed, and the slots after the first
    #[serde(default)]
    foreign: Option<(u64, Vec<(u8, Kdf)>)>,
}

fn khist(max: usize) -> BoxedStrategy<KHist> {
    let k = || prop::sample::select(refc::KDFS.to_vec());
    // choose the authorising password mostly among those likely to be valid
    let pwi = || prop_oneof![3 => 0u8..3, 2 => 0u8..6];
    let op = prop_oneof![
        5 => (pwi(), 0u8..6, k()).prop_map(|(old, new, kdf)| KOp::Add { old, new, kdf }),
        4 => (pwi(), 0u8..6, k()).prop_map(|(old, new, kdf)| KOp::Change { old, new, kdf }),
        4 => pwi().prop_map(|pw| KOp::Delete { pw }),
        1 => pwi().prop_map(|pw| KOp::Verify { pw }),
    ];
    (
        prop::sample::select(ALGS.to_vec()),
        k(),
        vec(password(), 3),
        vec((any::<u8>(), any::<u64>()), 3),
        data_of(small_len()),
        any::<bool>(),
        vec(op, 1..max),
        (chunk_tiny(), chunk_tiny()),
        prop::option::weighted(0.3, (prop_oneof![1 => any::<u64>(), 1 => any::<u32>().prop_map(|k| refc::PLAIN | u64::from(k))], vec((0u8..6, k()), 0..4))),
    )
        .prop_map(|(alg, kdf, mut pool, near, data, detached, ops, chunks, foreign)| {
            for i in 0..3 {
                let n = near_miss(&pool[i], near[i].0, near[i].1);
                pool.push(n);
            }
            for i in 1..pool.len() {
                while pool[..i].contains(&pool[i]) {
                    pool[i].push(b'0' + i as u8);
                }
            }
            KHist { alg, kdf, pool, data, detached, ops, chunks, foreign }
        })
        .boxed()
}

fn khistory(c: &KHist, cov: &mut Cov) -> Res {
    use tools::key::Error as KE;
    let pt = c.data.bytes();
    // model: (password index, kdf)
    let mut model: Vec<(u8, Kdf)> = vec![(0, c.kdf)];
    let (body_file, mut cur) = if let Some((seed, more)) = &c.foreign {
        model.extend(more);
        let slots = model.iter().map(|(p, k)| (*k, c.pool[*p as usize].clone())).collect();
        let b = Spec { version: 5, alg: c.alg, memory: false, slots, seed: *seed }.build(&pt);
        cov.label(format!("foreign_{}", model.len()));
        if c.detached { (b.body, b.header) } else { (b.file(), b.file()) }
    } else {
        let inp = MemFile::new(pt.clone()).cell();
        let out = MemFile::new(vec![]).cell();
        let hd = MemFile::new(vec![]).cell();
        ops::encrypt(5, c.alg, c.kdf, &c.pool[0], &inp, &out, c.detached.then_some(&hd)).map_err(|e| format!("encrypt: {e}"))?;
        let body_file = out.borrow().contents();
        let cur = if c.detached { hd.borrow().contents() } else { body_file.clone() };
        (body_file, cur)
    };
    let h0 = Hdr::parse(&cur[..416.min(cur.len())]).ok_or("no header")?;
    let (mk, _) = h0.unlock(&c.pool[0]).ok_or("no key")?;
    for (i, op) in c.ops.iter().enumerate() {
        let f = MemFile::new(cur.clone()).chunks(&c.chunks.0, &c.chunks.1).cell();
        let has = |m: &[(u8, Kdf)], p: u8| m.iter().any(|(q, _)| *q == p);
        let (r, expect): (Result<(), KE>, &str) = match op {
            KOp::Add { old, new, kdf } => {
                let e = if !has(&model, *old) {
                    "incorrect"
                } else if model.len() == 4 {
                    "full"
                } else {
                    model.push((*new, *kdf));
                    "ok"
                };
                (ops::key_add(&f, &c.pool[*old as usize], &c.pool[*new as usize], *kdf), e)
            }
            KOp::Change { old, new, kdf } => {
                let e = match model.iter().position(|(q, _)| q == old) {
                    None => "incorrect",
                    Some(j) => {
                        model[j] = (*new, *kdf);
                        "ok"
                    }
                };
                (ops::key_change(&f, &c.pool[*old as usize], &c.pool[*new as usize], *kdf), e)
            }
            KOp::Delete { pw } => {
                let e = match model.iter().position(|(q, _)| q == pw) {
                    None => "incorrect",
                    Some(j) => {
                        model.remove(j);
                        "ok"
                    }
                };
                (ops::key_delete(&f, &c.pool[*pw as usize]), e)
            }
            KOp::Verify { pw } => (ops::key_verify(&f, &c.pool[*pw as usize]), if has(&model, *pw) { "ok" } else { "incorrect" }),
        };
        let got = match &r {
            Ok(()) => "ok",
            Err(KE::IncorrectKey) => "incorrect",
            Err(KE::TooManyKeyslots) => "full",
            Err(_) => "other error",
        };
        // with two reasons to refuse, either may be given
        let both = expect == "incorrect" && model.len() == 4 && matches!(op, KOp::Add { .. });
        ensure!(got == expect || (both && got == "full"), "step {i} {op:?}: {got}, expected {expect}");
        cov.label(format!("{}_{expect}", match op {
            KOp::Add { .. } => "add",
            KOp::Change { .. } => "change",
            KOp::Delete { .. } => "delete",
            KOp::Verify { .. } => "verify",
        }));
        let next = f.borrow().contents();
        if expect != "ok" || matches!(op, KOp::Verify { .. }) {
            ensure!(next == cur, "step {i} {op:?}: did not succeed as a change but modified the file at {:?}", diff(&next, &cur));
            continue;
        }
        if !matches!(op, KOp::Verify { .. }) {
            cov.nontrivial();
        }
        ensure!(next.len() == cur.len() && next[416..] == cur[416..] && next[..32] == cur[..32], "step {i} {op:?}: something other than key slots changed (at {:?})", diff(&next, &cur));
        let Some(h) = Hdr::parse(&next[..416]) else { fail!("step {i} {op:?}: header no longer conforms to the format") };
        // every slot opens with exactly the passwords of the model and holds the same data key
        let mut left = model.clone();
        ensure!(h.slots.len() == left.len(), "step {i} {op:?}: {} slots, expected {}", h.slots.len(), left.len());
        for s in &h.slots {
            let mut found = None;
            for (p, pw) in c.pool.iter().enumerate() {
                let k = refc::kdf(s.kdf, pw, &s.salt);
                if let Some(m) = refc::open(c.alg, &k, &s.nonce, &[], &s.enc) {
                    ensure!(m[..] == mk[..], "step {i} {op:?}: a slot holds another data key");
                    found = Some((p as u8, s.kdf));
                }
            }
            let Some(x) = found else { fail!("step {i} {op:?}: a slot opens with none of the passwords") };
            match left.iter().position(|y| *y == x) {
                Some(j) => {
                    left.remove(j);
                }
                None => fail!("step {i} {op:?}: slot for password {} with hash {} is not expected; model {:?}", x.0, x.1, model),
            }
        }
        cur = next;
        // the data is still there for exactly the passwords that should open it
        for (p, pw) in c.pool.iter().enumerate() {
            let (r, got) = if c.detached { ops::decrypt_bytes(pw, &body_file, Some(&cur)) } else { ops::decrypt_bytes(pw, &cur, None) };
            if has(&model, p as u8) {
                ensure!(r.is_ok() && got == pt, "step {i} {op:?}: password {p} should open the file: {r:?}");
            } else {
                ensure!(r.is_err() && got.is_empty(), "step {i} {op:?}: password {p} should not open the file");
            }
        }
    }
    cov.evals(c.ops.len() as u64 - 1);
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    ctx.check("keyslot_history", ctx.scale(13_500, 900_000), || khist(14), khistory);
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Mgmt {
    Add,
    Change,
    Delete,
    Verify,
    Strip,
    Restore,
    Dump,
}
const MGMT: [Mgmt; 7] = [Mgmt::Add, Mgmt::Change, Mgmt::Delete, Mgmt::Verify, Mgmt::Strip, Mgmt::Restore, Mgmt::Dump];

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Why {
    /// key operations need version 5; dump and restore need version 3
    OldVersion(u8),
    NotAHeader { len: usize, seed: u64 },
    /// the first `keep` bytes of a good file
    Cut { keep: usize },
    WrongPassword { how: u8, seed: u64 },
    Full,
    /// header tag byte set to nonsense
    BadTag { pos: usize, val: u8 },
    BadSlotId { slot: usize, val: u8 },
    /// restore: the place for the header holds something
    Occupied { pos: usize, val: u8 },
    /// restore: two bytes of it, which cancel out in a sum or an exclusive or
    OccupiedTwice { a: usize, b: usize, val: u8, xor: bool },
    /// restore: target shorter than the header
    ShortTarget { len: usize },
    /// an I/O failure at the k-th operation
    Fault { k: u64, kind: FaultKind },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refuse {
    op: Mgmt,
    why: Why,
    spec: Spec,
    len: usize,
}

fn refuse_strategy() -> BoxedStrategy<Refuse> {
    let why = prop_oneof![
        2 => (1u8..=4).prop_map(Why::OldVersion),
        1 => (0usize..900, any::<u64>()).prop_map(|(len, seed)| Why::NotAHeader { len, seed }),
        2 => (0usize..416).prop_map(|keep| Why::Cut { keep }),
        2 => (any::<u8>(), any::<u64>()).prop_map(|(how, seed)| Why::WrongPassword { how, seed }),
        1 => Just(Why::Full),
        1 => (0usize..6, any::<u8>()).prop_map(|(pos, val)| Why::BadTag { pos, val }),
        1 => (0usize..4, any::<u8>()).prop_map(|(slot, val)| Why::BadSlotId { slot, val }),
        2 => (0usize..416, 1u8..=255).prop_map(|(pos, val)| Why::Occupied { pos, val }),
        1 => (0usize..416, 1usize..416, prop_oneof![Just(0x80u8), 1u8..=255], any::<bool>()).prop_map(|(a, b, val, xor)| Why::OccupiedTwice { a, b, val, xor }),
        2 => (0usize..416).prop_map(|len| Why::ShortTarget { len }),
        3 => (0u64..12, prop::sample::select(vec![FaultKind::Once, FaultKind::Sticky])).prop_map(|(k, kind)| Why::Fault { k, kind }),
    ];
    (prop::sample::select(MGMT.to_vec()), why, spec(vec![5], false), small_len())
        .prop_map(|(op, why, spec, len)| Refuse { op, why, spec, len })
        .boxed()
}

fn refuse(c: &Refuse, cov: &mut Cov) -> Res {
    let mut spec = c.spec.clone();
    if let Why::OldVersion(v) = c.why {
        spec.version = v;
        spec.slots.truncate(1);
    }
    if let Why::Full = c.why {
        while spec.slots.len() < 4 {
            let n = spec.slots.len() as u8;
            spec.slots.push((5, vec![b'f', n, b'u', b'l', b'l', n, n]));
        }
    }
    let b = spec.build(&prand(3, c.len));
    let mut file = b.file();
    let hl = b.header.len();
    let mut pw = spec.slots[0].1.clone();
    let is_key = matches!(c.op, Mgmt::Add | Mgmt::Change | Mgmt::Delete | Mgmt::Verify);
    let mut target: Option<Vec<u8>> = None; // restore target
    let mut faults = None;
    // must this be refused?
    let must = match &c.why {
        Why::OldVersion(v) => match c.op {
            Mgmt::Strip => false,
            Mgmt::Dump | Mgmt::Restore => *v < 3,
            _ => true,
        },
        Why::NotAHeader { len, seed } => {
            file = prand(*seed, *len);
            if file.first() == Some(&0xDE) {
                file[0] = 0;
            }
            true
        }
        Why::Cut { keep } => {
            file.truncate(*keep);
            true
        }
        Why::WrongPassword { how, seed } => {
            pw = near_miss(&pw, *how, *seed);
            is_key && !spec.slots.iter().any(|(_, p)| *p == pw)
        }
        Why::Full => c.op == Mgmt::Add,
        Why::BadTag { pos, val } => {
            file[*pos] = *val;
            match pos {
                0 => *val != 0xDE,
                1 => !(1..=5).contains(val),
                2 => *val != 0x0E,
                3 => !(1..=3).contains(val),
                4 => *val != 0x0C,
                _ => !(1..=2).contains(val),
            }
        }
        Why::BadSlotId { slot, val } => {
            let s = slot % spec.slots.len();
            file[32 + 96 * s + 1] = *val;
            ![0xA1, 0xA2, 0xA3, 0xB4, 0xB5].contains(val)
        }
        Why::Occupied { pos, val } => {
            let mut t = [vec![0; hl], b.body.clone()].concat();
            t[*pos % hl] = *val;
            target = Some(t);
            c.op == Mgmt::Restore
        }
        Why::OccupiedTwice { a, b: d, val, xor } => {
            let mut t = [vec![0; hl], b.body.clone()].concat();
            t[*a % hl] = *val;
            let other = (*a % hl + 1 + *d % (hl - 1)) % hl;
            t[other] = if *xor { *val } else { val.wrapping_neg() };
            target = Some(t);
            c.op == Mgmt::Restore
        }
        Why::ShortTarget { len } => {
            target = Some(vec![0; *len % hl]);
            c.op == Mgmt::Restore
        }
        Why::Fault { k, kind } => {
            faults = Some(Faults::new(Some((*k, *kind))));
            false
        }
    };
    let target = target.unwrap_or_else(|| [vec![0; hl], b.body.clone()].concat());
    let mk = |d: Vec<u8>| {
        let f = MemFile::new(d).logged();
        match &faults {
            Some(x) => f.faults(x).cell(),
            None => f.cell(),
        }
    };
    let f = mk(file.clone());
    let t = mk(if c.op == Mgmt::Dump { vec![] } else { target.clone() });
    let before_t = t.borrow().contents();
    let new = b"replacement password";
    let r: Result<(), String> = match c.op {
        Mgmt::Add => ops::key_add(&f, &pw, new, 5).map_err(|e| e.to_string()),
        Mgmt::Change => ops::key_change(&f, &pw, new, 5).map_err(|e| e.to_string()),
        Mgmt::Delete => ops::key_delete(&f, &pw).map_err(|e| e.to_string()),
        Mgmt::Verify => ops::key_verify(&f, &pw).map_err(|e| e.to_string()),
        Mgmt::Strip => ops::strip(&f),
        Mgmt::Restore => ops::restore(&f, &t),
        Mgmt::Dump => ops::dump(&f, &t),
    };
    let (fa, ta) = (f.borrow().contents(), t.borrow().contents());
    ensure!(!must || r.is_err(), "{:?} should have been refused", c.op);
    // the source of a dump or restore, and the subject of a verification, never change
    if matches!(c.op, Mgmt::Dump | Mgmt::Restore | Mgmt::Verify) {
        ensure!(fa == file, "{:?} changed a file it only reads", c.op);
    }
    let write_failed = faults.as_ref().is_some_and(|x| matches!(x.lock().unwrap().fired_class, Some(Class::Write | Class::Flush)));
    match r {
        Err(_) if !write_failed => {
            ensure!(fa == file, "{:?} failed but changed the file at {:?}", c.op, diff(&fa, &file));
            ensure!(ta == before_t, "{:?} failed but changed its target at {:?}", c.op, diff(&ta, &before_t));
            cov.nontrivial();
            cov.label(format!("{:?}_refused", c.op));
        }
        _ => {
            // whatever happens, nothing beyond the header is touched
            ensure!(fa.len() == file.len() && fa[hl.min(fa.len())..] == file[hl.min(file.len())..], "{:?} touched bytes beyond the header", c.op);
            if c.op == Mgmt::Restore {
                ensure!(ta.len() == before_t.len() && ta[hl.min(ta.len())..] == before_t[hl.min(ta.len())..], "restore touched bytes beyond the header");
            }
            cov.label(format!("{:?}_done", c.op));
        }
    }
    Ok(())
}

pub fn c07(ctx: &Ctx) {
    ctx.check("refused", ctx.scale(54_000, 1_600_000), refuse_strategy, refuse);
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
enum LOp {
    Dump,
    /// onto something that is there already
    DumpOver(usize),
    Strip,
    Restore,
    /// change the key in the detached header
    ChangeDumped(u8),
    ChangeFile(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
    spec: Spec,
    by_lib: bool,
    data: Data,
    ops: Vec<LOp>,
    chunks: (Chunk, Chunk),
}

fn life_strategy() -> BoxedStrategy<Life> {
    let op = prop_oneof![
        2 => Just(LOp::Dump),
        1 => prop_oneof![0usize..900, Just(416usize)].prop_map(LOp::DumpOver),
        4 => Just(LOp::Strip),
        4 => Just(LOp::Restore),
        1 => any::<u8>().prop_map(LOp::ChangeDumped),
        1 => any::<u8>().prop_map(LOp::ChangeFile)
    ];
    (spec(vec![3, 4, 5, 5, 5, 1, 2], false), any::<bool>(), data_of(prop_oneof![9 => small_len(), 1 => len_strategy(1)].boxed()), vec(op, 1..9), (chunk_tiny(), chunk_tiny()))
        .prop_map(|(spec, by_lib, data, mut ops, chunks)| {
            ops.insert(0, LOp::Dump);
            let big = data.len > 20_000;
            Life { spec, by_lib, data, ops, chunks: if big { (Chunk::Full, Chunk::Max(4096)) } else { chunks } }
        })
        .boxed()
}

fn life(c: &Life, cov: &mut Cov) -> Res {
    let pt = c.data.bytes();
    let v = c.spec.version;
    let (mut file, body, hl) = if c.by_lib && v >= 4 {
        let f = ops::encrypt_bytes(v, c.spec.alg, if v == 4 { 4 } else { c.spec.slots[0].0 }, &c.spec.slots[0].1, &pt)?;
        let hl = refc::header_len(v);
        let b = f[hl..].to_vec();
        (f, b, hl)
    } else {
        let b = c.spec.build(&pt);
        (b.file(), b.body.clone(), b.header.len())
    };
    let mut in_file = true; // does the file carry a header
    let mut dumped: Option<Vec<u8>> = None;
    let mut pws: (Vec<u8>, Vec<u8>) = (c.spec.slots[0].1.clone(), vec![]); // password of (file, dump)
    let cell = |b: &[u8]| MemFile::new(b.to_vec()).chunks(&c.chunks.0, &c.chunks.1).cell();
    for (i, op) in c.ops.iter().enumerate() {
        match op {
            LOp::Dump | LOp::DumpOver(_) => {
                let f = cell(&file);
                let there = if let LOp::DumpOver(n) = op { prand(5, *n) } else { vec![] };
                let w = cell(&there);
                let r = ops::dump(&f, &w);
                ensure!(r.is_ok() == (in_file && v >= 3), "step {i} dump: {r:?}");
                ensure!(f.borrow().contents() == file, "dump changed the file");
                if r.is_ok() {
                    let mut d = w.borrow().contents();
                    if there.len() > hl {
                        ensure!(d.len() == there.len() && d[hl..] == there[hl..], "step {i}: dumping wrote beyond the header");
                        d.truncate(hl);
                    }
                    ensure!(d == file[..hl], "step {i}: dumped header differs from the file's at {:?}", diff(&d, &file[..hl]));
                    dumped = Some(d);
                    pws.1 = pws.0.clone();
                }
            }
            LOp::Strip => {
                let f = cell(&file);
                let r = ops::strip(&f);
                ensure!(r.is_ok() == in_file, "step {i} strip: {r:?}");
                let after = f.borrow().contents();
                if r.is_ok() {
                    ensure!(after == [vec![0; hl], body.clone()].concat(), "step {i}: stripping did not leave exactly zeros and the body");
                    cov.nontrivial();
                } else {
                    ensure!(after == file, "failed strip changed the file");
                }
                file = after;
                in_file = false;
            }
            LOp::Restore => {
                let Some(d) = &dumped else { continue };
                let (s, t) = (cell(d), cell(&file));
                let r = ops::restore(&s, &t);
                ensure!(r.is_ok() == !in_file, "step {i} restore onto a {} file: {r:?}", if in_file { "whole" } else { "stripped" });
                let after = t.borrow().contents();
                if r.is_ok() {
                    ensure!(after == [d.clone(), body.clone()].concat(), "step {i}: restoring did not give back header and body (at {:?})", diff(&after, &[d.clone(), body.clone()].concat()));
                    pws.0 = pws.1.clone();
                } else {
                    ensure!(after == file, "failed restore changed the file");
                }
                file = after;
                in_file = true;
            }
            LOp::ChangeDumped(n) if v == 5 => {
                let Some(d) = &mut dumped else { continue };
                let h = cell(d);
                let new = vec![b'd', *n, 7];
                ops::key_change(&h, &pws.1, &new, 5).map_err(|e| format!("step {i} change in detached header: {e}"))?;
                *d = h.borrow().contents();
                pws.1 = new;
            }
            LOp::ChangeFile(n) if v == 5 && in_file => {
                let h = cell(&file);
                let new = vec![b'f', *n, 9];
                ops::key_change(&h, &pws.0, &new, 3).map_err(|e| format!("step {i} change in file: {e}"))?;
                file = h.borrow().contents();
                pws.0 = new;
            }
            _ => {}
        }
        // what should decrypt decrypts, the rest does not
        let (r, got) = ops::decrypt_bytes(&pws.0, &file, None);
        if in_file {
            ensure!(r.is_ok() && got == pt, "step {i} {op:?}: the file no longer decrypts: {r:?}");
        } else {
            ensure!(r.is_err() && got.is_empty(), "step {i}: a stripped file decrypted by itself");
        }
        if let Some(d) = &dumped {
            if !in_file {
                let (r, got) = ops::decrypt_bytes(&pws.1, &file, Some(d));
                ensure!(r.is_ok() && got == pt, "step {i} {op:?}: stripped file and dumped header do not decrypt: {r:?}");
            }
            let (r, got) = ops::decrypt_bytes(&pws.1, &body, Some(d));
            ensure!(r.is_ok() && got == pt, "step {i} {op:?}: bare body and dumped header do not decrypt: {r:?}");
        }
    }
    cov.label(format!("v{v}"));
    cov.evals(c.ops.len() as u64);
    Ok(())
}

pub fn c08(ctx: &Ctx) {
    ctx.check("lifecycle", ctx.scale(10_000, 200_000), life_strategy, life);
}
