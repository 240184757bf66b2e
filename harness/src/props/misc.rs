//! C09 freshness, C15 hashing, C16 I/O faults, C17 passphrases, C18 secrets, C20 hostile bytes,
//! C23 AEAD interfaces, C24 memory.

use super::arch::*;
use super::crypt::*;
use super::erase::fault_kind;
use super::*;
use crate::data::*;
use crate::fw::*;
use crate::io::*;
use crate::ops;
use crate::refc::{self, Alg, Hdr, Kdf, Spec, ALGS};
use crate::stor::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::path::PathBuf;
use std::sync::Arc;

// ------------------------------------------------------------------ C09

/// Runs `f` on a fresh thread whose randomness is determined by `seed`; with the bytes of
/// entropy it consumed.
fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> Result<(T, u64), String> {
    std::thread::scope(|s| {
        s.spawn(|| {
            getrandom::verif::set(Some(seed));
            let r = guard(f);
            getrandom::verif::set(None);
            r.map(|r| (r, getrandom::verif::used()))
        })
        .join()
        .unwrap_or_else(|_| Err("panic".into()))
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Fresh {
    cfg: Cfg,
    pw: Vec<u8>,
    data: Data,
    seed: u64,
    /// keys handled afterwards: (add or change, kdf)
    then: Vec<(bool, Kdf)>,
    pack: bool,
}

fn fresh_strategy() -> BoxedStrategy<Fresh> {
    (
        cfg(),
        password(),
        data_of(small_len()),
        any::<u64>(),
        vec((any::<bool>(), prop::sample::select(refc::KDFS.to_vec())), 0..4),
        prop::bool::weighted(0.2),
    )
        .prop_map(|(cfg, pw, data, seed, then, pack)| Fresh { cfg, pw, data, seed, then, pack })
        .boxed()
}

type Fields = Vec<(String, Vec<u8>)>;

/// Everything of a header that must have been chosen afresh.
fn fresh_fields(h: &Hdr, pw: &[u8]) -> Result<Fields, String> {
    let (mk, _) = h.unlock(pw).ok_or("the header does not open")?;
    let mut v: Fields = vec![("data key".into(), mk.to_vec()), ("data nonce".into(), h.nonce.clone())];
    for (i, s) in h.slots.iter().enumerate() {
        v.push((format!("salt {i}"), s.salt.clone()));
        v.push((format!("key nonce {i}"), s.nonce.clone()));
    }
    Ok(v)
}

/// What the sequence of the case leaves behind, with all values chosen on the way.
fn fresh_run(c: &Fresh) -> Result<(Fields, Vec<u8>), String> {
    let file = if c.pack {
        let s = MemStorage::new();
        s.put("src/f", c.data.bytes());
        let s = Arc::new(s);
        pack_mem(&s, "src", &c.pw, &c.cfg, false, zip::CompressionMethod::Stored).map_err(|e| e.msg)?.0
    } else {
        ops::encrypt_bytes(c.cfg.version, c.cfg.alg, c.cfg.kdf, &c.pw, &c.data.bytes())?
    };
    let h = Hdr::parse(&file).ok_or("not a header")?;
    let mut all = fresh_fields(&h, &c.pw)?;
    if c.cfg.version == 5 {
        let cell = MemFile::new(file.clone()).cell();
        let mut pw = c.pw.clone();
        let mut slots = h.slots.clone();
        for (i, (add, kdf)) in c.then.iter().enumerate() {
            cell.borrow_mut().pos = 0;
            let new = [&c.pw[..], b"+", &[i as u8]].concat();
            if *add {
                if slots.len() == 4 {
                    continue;
                }
                ops::key_add(&cell, &pw, &new, *kdf).map_err(|e| e.to_string())?;
            } else {
                ops::key_change(&cell, &pw, &new, *kdf).map_err(|e| e.to_string())?;
                pw = new;
            }
            let h2 = Hdr::parse(&cell.borrow().contents()).ok_or("not a header after a key operation")?;
            let changed: Vec<_> = h2.slots.iter().filter(|s| !slots.contains(s)).cloned().collect();
            if changed.len() != 1 {
                return Err(format!("{} slots changed", changed.len()));
            }
            all.push((format!("salt of step {i}"), changed[0].salt.clone()));
            all.push((format!("key nonce of step {i}"), changed[0].nonce.clone()));
            slots = h2.slots;
        }
        let end = cell.borrow().contents();
        return Ok((all, end));
    }
    Ok((all, file))
}

fn no_reuse(sets: &[Fields]) -> Res {
    let mut seen: HashMap<Vec<u8>, (usize, String)> = HashMap::new();
    for (i, fs) in sets.iter().enumerate() {
        for (n, v) in fs {
            ensure!(v.iter().collect::<HashSet<_>>().len() > 1, "{n} is {v:02x?}");
            // any 8 bytes in common, anywhere
            for w in v.windows(8) {
                if let Some((j, m)) = seen.get(w) {
                    fail!("{n} of run {i} shares the bytes {w:02x?} with {m} of run {j}");
                }
            }
            for w in v.windows(8) {
                seen.insert(w.to_vec(), (i, n.clone()));
            }
        }
    }
    Ok(())
}

/// No value is what a generator gives out that was seeded with 64 bits or less.
fn not_from_short(seeds: &[u64], values: &Fields) -> Res {
    use rand::{RngCore, SeedableRng};
    for s in seeds {
        let mut out = [0u8; 512];
        rand::rngs::StdRng::seed_from_u64(*s).fill_bytes(&mut out);
        for (n, v) in values {
            ensure!(!v.windows(8).any(|w| out.windows(8).any(|o| o == w)), "{n} comes from a generator that was seeded with 64 bits");
        }
    }
    Ok(())
}

fn fresh(c: &Fresh, cov: &mut Cov) -> Res {
    let (((f1, b1), short), used) = seeded(c.seed, || {
        getrandom::verif::short_seeds();
        fresh_run(c).map(|r| (r, getrandom::verif::short_seeds()))
    })
    .and_then(|(r, u)| r.map(|r| (r, u)))?;
    not_from_short(&short, &f1)?;
    ensure!(used >= 32, "only {used} bytes of entropy were drawn from the system");
    let ((_, b2), _) = seeded(c.seed, || fresh_run(c)).and_then(|(r, u)| r.map(|r| (r, u)))?;
    ensure!(b1 == b2 || c.pack, "something other than the system's entropy decides what is written");
    // another run with the same password and data, and two in a row on one thread
    let ((f3, f4), _) = seeded(c.seed ^ 1, || Ok::<_, String>((fresh_run(c)?.0, fresh_run(c)?.0))).and_then(|(r, u)| r.map(|r| (r, u)))?;
    no_reuse(&[f1, f3, f4])?;
    cov.label(format!("v{}", c.cfg.version));
    cov.label(format!("key_steps_{}", c.then.len()));
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Spread {
    cfg: Cfg,
    seed: u64,
    n: u64,
    one_thread: bool,
}

/// Over many runs every bit of every chosen value takes both values, and nothing repeats.
fn spread(c: &Spread, cov: &mut Cov) -> Res {
    let case = Fresh { cfg: c.cfg.clone(), pw: b"same".to_vec(), data: Data { len: 5, fill: 2, seed: 0 }, seed: 0, then: vec![], pack: false };
    let runs: Vec<Fields> = if c.one_thread {
        seeded(c.seed, || (0..c.n).map(|_| fresh_run(&case).map(|r| r.0)).collect::<Result<Vec<_>, _>>())?.0?
    } else {
        let mut v = vec![];
        for i in 0..c.n {
            v.push(seeded(c.seed.wrapping_add(i), || fresh_run(&case))?.0?.0);
        }
        v
    };
    no_reuse(&runs)?;
    for k in 0..runs[0].len() {
        let name = &runs[0][k].0;
        for bit in 0..runs[0][k].1.len() * 8 {
            let ones = runs.iter().filter(|r| r[k].1[bit / 8] >> (bit % 8) & 1 == 1).count() as u64;
            ensure!(ones > 0 && ones < c.n, "bit {bit} of the {name} was the same in {} runs", c.n);
        }
    }
    cov.evals(c.n);
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    what: u8,
    seed: u64,
    n: u64,
}

/// Among very many values of one kind none repeats, as some would if they were drawn from less
/// than about 2^40 possible ones.
fn many(c: &Many, cov: &mut Cov) -> Res {
    use corecrypto::primitives as p;
    let what = c.what % 8;
    let draw = move || -> u64 {
        let v = match what {
            0 => p::gen_salt().to_vec(),
            1 => p::gen_master_key().expose().to_vec(),
            k => {
                let a = [p::Algorithm::Aes256Gcm, p::Algorithm::XChaCha20Poly1305, p::Algorithm::DeoxysII256][(k as usize - 2) / 2];
                p::gen_nonce(&a, &if k % 2 == 0 { p::Mode::StreamMode } else { p::Mode::MemoryMode })
            }
        };
        u64::from_le_bytes(v[..8].try_into().unwrap())
    };
    let (mut v, _) = seeded(c.seed, || (0..c.n).map(|_| draw()).collect::<Vec<_>>())?;
    v.sort_unstable();
    ensure!(v.windows(2).all(|w| w[0] != w[1]), "a value of kind {what} came up twice among {}", c.n);
    cov.evals(c.n);
    cov.label(format!("kind_{what}"));
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoEntropy {
    case: Fresh,
    what: u8,
    from: u64,
    count: u64,
}

/// When the system gives no randomness, or not at once, the operation fails or does without it
/// only in so far as everything chosen still differs from one run to the next.
fn no_entropy(c: &NoEntropy, cov: &mut Cov) -> Res {
    use corecrypto::primitives as p;
    let run = || -> Result<Fields, String> {
        Ok(match c.what {
            0 => vec![("salt".into(), p::gen_salt().to_vec())],
            1 => vec![("data key".into(), p::gen_master_key().expose().to_vec())],
            2 => {
                let a = [p::Algorithm::Aes256Gcm, p::Algorithm::XChaCha20Poly1305, p::Algorithm::DeoxysII256][c.case.seed as usize % 3];
                vec![("nonce".into(), p::gen_nonce(&a, &p::Mode::StreamMode))]
            }
            3 => vec![("passphrase".into(), corecrypto::key::generate_passphrase(&16).expose().as_bytes().to_vec())],
            _ => fresh_run(&c.case)?.0,
        })
    };
    let mut sets = vec![];
    for i in 0..3 {
        let r = seeded(c.case.seed ^ i, || {
            getrandom::verif::fail(c.from, c.count);
            let r = guard(run).and_then(|r| r);
            (r, getrandom::verif::failed())
        });
        match r {
            Ok(((Ok(v), failed), _)) => {
                cov.label(if failed > 0 { "done_without" } else { "not_asked" });
                sets.push(v);
            }
            Ok(((Err(e), failed), _)) => {
                ensure!(failed > 0, "{e}");
                cov.label("refused");
                cov.nontrivial();
            }
            Err(_) => {
                cov.label("refused");
                cov.nontrivial();
            }
        }
    }
    if c.what == 3 {
        let distinct: HashSet<_> = sets.iter().map(|s| &s[0].1).collect();
        ensure!(distinct.len() == sets.len(), "without randomness the passphrase is always the same");
        return Ok(());
    }
    no_reuse(&sets)
}

fn no_entropy_strategy(passphrase: bool) -> BoxedStrategy<NoEntropy> {
    let what = if passphrase { Just(3u8).boxed() } else { prop_oneof![Just(0u8), Just(1), Just(2), Just(4), Just(4)].boxed() };
    (fresh_strategy(), what, prop_oneof![3 => Just(0u64), 2 => 1u64..8], prop_oneof![2 => Just(u64::MAX), 1 => 1u64..4])
        .prop_map(|(case, what, from, count)| NoEntropy { case, what, from, count })
        .boxed()
}

pub fn c09(ctx: &Ctx) {
    ctx.check("no_entropy", ctx.scale(1_500, 30_000), || no_entropy_strategy(false), no_entropy);
    let (n, seed) = (if ctx.tier == Tier::Thorough { 1 << 23 } else { 1 << 21 }, ctx.seed);
    ctx.enumerate("many", (0..8).map(|what| Many { what, seed: seed.wrapping_mul(977) + u64::from(what), n }).collect(), many);
    ctx.check("fresh", ctx.scale(7_500, 160_000), fresh_strategy, fresh);
    ctx.check(
        "spread",
        ctx.scale(40, 300),
        || {
            (cfg(), any::<u64>(), any::<bool>(), Just(200u64))
                .prop_map(|(cfg, seed, one_thread, n)| Spread { cfg, seed, n, one_thread })
                .boxed()
        },
        spread,
    );
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hash {
    data: Data,
    start: u64,
    r: Chunk,
    fault: Option<(u64, FaultKind)>,
    splits: Vec<u32>,
}

fn hash_case(c: &Hash, cov: &mut Cov) -> Res {
    use tools::hasher::Hasher;
    let b = c.data.bytes();
    let want = blake3::hash(&b).to_hex().to_string();
    let f = Faults::new(c.fault);
    let mut m = MemFile::new(b.clone()).chunks(&c.r, &Chunk::Full).faults(&f);
    m.pos = c.start;
    let st = m.st.clone();
    let r = ops::hash(m);
    let fired = f.lock().unwrap().fired;
    match r {
        Ok(h) => ensure!(h == want, "hash {h} instead of {want}"),
        Err(e) => ensure!(fired, "hashing failed: {e}"),
    }
    ensure!(st.lock().unwrap().data == b, "hashing changed its input");
    // the incremental interface
    let mut h = tools::hasher::Blake3Hasher::default();
    let mut at = 0;
    for s in &c.splits {
        let n = (*s as usize).min(b.len() - at);
        h.write(&b[at..at + n]);
        at += n;
    }
    h.write(&b[at..]);
    ensure!(h.finish() == want, "hashing in pieces differs");
    if fired {
        cov.label("fault");
    }
    if c.r != Chunk::Full {
        cov.label("short_reads");
    }
    if b.len() > 1 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn c15(ctx: &Ctx) {
    let strat = |big: bool, fault: bool| {
        let d = if big { data(4) } else { data_of(small_len()) };
        let ch = if big { chunk() } else { chunk_tiny() };
        let f = if fault { (0u64..12, fault_kind()).prop_map(Some).boxed() } else { Just(None).boxed() };
        (d, prop_oneof![2 => Just(0u64), 2 => 0u64..9000, 1 => any::<u32>().prop_map(u64::from)], ch, f, vec(0u32..5000, 0..6))
            .prop_map(|(data, start, r, fault, splits)| Hash { data, start, r, fault, splits })
            .boxed()
    };
    ctx.check("hash", ctx.scale(4_800, 80_000), || strat(true, false), hash_case);
    ctx.check("hash_small", ctx.scale(30_000, 640_000), || strat(false, false), hash_case);
    ctx.check("hash_fault", ctx.scale(20_000, 480_000), || strat(false, true), hash_case);
    // published test vectors of the BLAKE3 specification
    let vectors: Vec<(String, String)> = vec![
        ("".into(), "af1349b9f5f9a1a6a0404dea36dcc9499bcb25c9adc112b7cc9a93cae41f3262".into()),
        ("abc".into(), "6437b3ac38465133ffb63b75273a8db548c558465d79db03fd359c6cd5bd9d85".into()),
    ];
    ctx.enumerate("vectors", vectors, |(m, want), cov| {
        let h = ops::hash(MemFile::new(m.as_bytes().to_vec()))?;
        ensure!(h == *want, "hash of {m:?} is {h}");
        cov.nontrivial();
        Ok(())
    });
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum FOp {
    Encrypt,
    EncryptDetached,
    Decrypt,
    DecryptDetached,
    Dump,
    Restore,
    Strip,
    KeyAdd,
    KeyChange,
    KeyDelete,
    KeyVerify,
    Pack,
    PackDetached,
    Unpack,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FCase {
    op: FOp,
    cfg: Cfg,
    memory: bool,
    version: u8,
    data: Data,
    pw: Vec<u8>,
    r: Chunk,
    w: Chunk,
    tree: TreeSpec,
    kind: FaultKind,
    /// fault points to try, as fractions of the operations of an undisturbed run
    at: Vec<u16>,
}

fn f_strategy(pack: bool) -> BoxedStrategy<FCase> {
    use FOp::*;
    let op = if pack {
        prop::sample::select(vec![Pack, PackDetached, Unpack])
    } else {
        prop::sample::select(vec![Encrypt, Encrypt, EncryptDetached, Decrypt, Decrypt, DecryptDetached, Dump, Restore, Strip, KeyAdd, KeyChange, KeyDelete, KeyVerify])
    };
    let d = data_of(prop_oneof![3 => small_len(), 1 => len_strategy(2)].boxed());
    let t = if pack { tree(4, false) } else { Just(TreeSpec { dirs: vec![], files: vec![] }).boxed() };
    (
        (op, cfg(), prop::bool::weighted(0.2), prop::sample::select(vec![1u8, 2, 3, 4, 5, 5, 5])),
        (d, password(), chunk(), chunk(), t, fault_kind(), vec(any::<u16>(), 8..24)),
    )
        .prop_map(|((op, cfg, memory, version), (data, pw, r, w, tree, kind, at))| FCase { op, cfg, memory, version, data, pw, r, w, tree, kind, at })
        .boxed()
}

struct Made {
    fired: bool,
    ops: u64,
    ok: bool,
}

fn f_run(c: &FCase, at: Option<(u64, FaultKind)>) -> Result<Made, Fail> {
    let f = Faults::new(at);
    let pt = c.data.bytes();
    let file = |b: Vec<u8>| MemFile::new(b).chunks(&c.r, &c.w).faults(&f).logged();
    let flushed = |m: &MemFile| {
        let st = m.st.lock().unwrap();
        match st.log.iter().rposition(|e| matches!(e, Ev::Write { .. })) {
            None => true,
            Some(k) => st.log[k..].iter().any(|e| matches!(e, Ev::Flush)),
        }
    };
    let new_pw = [&c.pw[..], b"new"].concat();
    let slots = vec![(c.cfg.kdf, c.pw.clone()), (4, [&c.pw[..], b"2"].concat())];
    let version = match c.op {
        FOp::KeyAdd | FOp::KeyChange | FOp::KeyDelete | FOp::KeyVerify => 5,
        FOp::Dump | FOp::Restore => c.version.max(3),
        _ => c.version,
    };
    let spec = Spec { version, alg: c.cfg.alg, memory: c.memory, slots, seed: c.data.seed };
    let ok;
    match c.op {
        FOp::Encrypt | FOp::EncryptDetached => {
            let det = c.op == FOp::EncryptDetached;
            let (i, o, h) = (file(pt.clone()).cell(), file(vec![]).cell(), file(vec![]).cell());
            let r = ops::encrypt(c.cfg.version, c.cfg.alg, c.cfg.kdf, &c.pw, &i, &o, det.then_some(&h));
            ensure!(i.borrow().contents() == pt, "the input changed");
            ok = r.is_ok();
            if ok {
                ensure!(flushed(&o.borrow()), "success reported, but the output was not flushed");
                let out = o.borrow().contents();
                let (hb, body) = if det {
                    (h.borrow().contents(), out)
                } else {
                    let n = refc::header_len(c.cfg.version).min(out.len());
                    (out[..n].to_vec(), out[n..].to_vec())
                };
                let hd = Hdr::parse(&hb).ok_or("success reported, but the header is broken")?;
                let (k, _) = hd.unlock(&c.pw).ok_or("success reported, but the header does not open")?;
                ensure!(hd.body_open(&k, &body) == Some(pt.clone()), "success reported, but the output does not decrypt to the input");
            }
        }
        FOp::Decrypt | FOp::DecryptDetached => {
            let det = c.op == FOp::DecryptDetached;
            let b = spec.build(&pt);
            let src = if det { b.body.clone() } else { b.file() };
            let (i, o, h) = (file(src.clone()).cell(), file(vec![]).cell(), file(b.header.clone()).cell());
            let r = ops::decrypt(&c.pw, &i, &o, det.then_some(&h));
            ensure!(i.borrow().contents() == src && h.borrow().contents() == b.header, "the input changed");
            let out = o.borrow().contents();
            ok = r.is_ok();
            if ok {
                ensure!(out == pt, "success reported, but {} bytes instead of {} were written", out.len(), pt.len());
                ensure!(spec.memory || flushed(&o.borrow()), "success reported, but the output was not flushed");
            } else {
                ensure!(pt.starts_with(&out), "a failed decryption wrote something that is not the beginning of the plaintext");
            }
        }
        FOp::Dump => {
            let b = spec.build(&pt);
            let (i, o) = (file(b.file()).cell(), file(vec![]).cell());
            let r = ops::dump(&i, &o);
            ok = r.is_ok();
            ensure!(i.borrow().contents() == b.file(), "the input changed");
            if ok {
                ensure!(o.borrow().contents() == b.header, "success reported, but the dump is not the header");
            }
        }
        FOp::Restore => {
            let b = spec.build(&pt);
            let stripped = [vec![0; b.header.len()], b.body.clone()].concat();
            let (i, o) = (file(b.header.clone()).cell(), file(stripped).cell());
            let r = ops::restore(&i, &o);
            ok = r.is_ok();
            let out = o.borrow().contents();
            ensure!(out.len() == b.file().len() && out[b.header.len()..] == b.body[..], "the content behind the header changed");
            if ok {
                ensure!(out == b.file(), "success reported, but the header is not restored");
            }
        }
        FOp::Strip => {
            let b = spec.build(&pt);
            let i = file(b.file()).cell();
            let r = ops::strip(&i);
            ok = r.is_ok();
            let out = i.borrow().contents();
            let n = b.header.len();
            ensure!(out.len() == b.file().len() && out[n..] == b.body[..], "the content behind the header changed");
            if ok {
                ensure!(out[..n].iter().all(|x| *x == 0), "success reported, but the header is still there");
            }
        }
        FOp::KeyAdd | FOp::KeyChange | FOp::KeyDelete | FOp::KeyVerify => {
            let b = spec.build(&pt);
            let i = file(b.file()).cell();
            let r = match c.op {
                FOp::KeyAdd => ops::key_add(&i, &c.pw, &new_pw, c.cfg.kdf),
                FOp::KeyChange => ops::key_change(&i, &c.pw, &new_pw, c.cfg.kdf),
                FOp::KeyDelete => ops::key_delete(&i, &c.pw),
                _ => ops::key_verify(&i, &c.pw),
            };
            ok = r.is_ok();
            let out = i.borrow().contents();
            let n = b.header.len();
            ensure!(out.len() == b.file().len() && out[n..] == b.body[..], "the content behind the header changed");
            if ok {
                let h = Hdr::parse(&out).ok_or("success reported, but the header is broken")?;
                let opens = |pw: &[u8]| h.unlock(pw).map(|(k, _)| k) == Some(b.key);
                let (old, new) = (opens(&c.pw), opens(&new_pw));
                let want = match c.op {
                    FOp::KeyAdd => (true, true),
                    FOp::KeyChange => (false, true),
                    FOp::KeyDelete => (false, false),
                    _ => (true, false),
                };
                ensure!((old, new) == want, "success reported, but (old, new) key open the file: {:?}", (old, new));
                ensure!(opens(&spec.slots[1].1), "success reported, but the other key does not open the file any more");
            } else if c.op == FOp::KeyVerify {
                ensure!(out == b.file(), "verifying changed the file");
            }
        }
        FOp::Pack | FOp::PackDetached => {
            let mut s = MemStorage::new();
            let t = c.tree.build();
            plant(&s, std::path::Path::new("src"), &t);
            s.rchunk = c.r.clone();
            s.wchunk = c.w.clone();
            s.faults = Some(f.clone());
            let before = s.snapshot();
            let s = Arc::new(s);
            let det = c.op == FOp::PackDetached;
            let (o, h) = (file(vec![]).cell(), file(vec![]).cell());
            let r = pack_entries(&s, &[PathBuf::from("src")])
                .and_then(|e| pack_into(&s, e, &o, det.then_some(&h), &c.pw, &c.cfg, zip::CompressionMethod::Stored));
            f.lock().unwrap().off = true;
            ok = r.is_ok();
            for (p, b) in &before {
                ensure!(s.snapshot().get(p) == Some(b), "packing changed {p:?}");
            }
            if ok {
                let u = Arc::new(MemStorage::new());
                let hb = h.borrow().contents();
                unpack_mem(&u, &o.borrow().contents(), det.then_some(&hb[..]), &c.pw, "out").map_err(|e| format!("success reported, but: {e}"))?;
                let got: Tree = u.snapshot();
                for (p, b) in &t {
                    let q = norm(&std::path::Path::new("out/src").join(p));
                    ensure!(got.get(&q) == Some(b), "success reported, but {p:?} is not in the archive as it was");
                }
            }
        }
        FOp::Unpack => {
            let s = MemStorage::new();
            let t = c.tree.build();
            plant(&s, std::path::Path::new("src"), &t);
            let s = Arc::new(s);
            let (b, _) = pack_mem(&s, "src", &c.pw, &c.cfg, false, zip::CompressionMethod::Stored)?;
            let mut u = MemStorage::new();
            u.rchunk = c.r.clone();
            u.wchunk = c.w.clone();
            u.faults = Some(f.clone());
            let u = Arc::new(u);
            let i = file(b.clone()).cell();
            let r = unpack_from(&u, &i, None, &c.pw, "out");
            for _ in 0..2000 {
                if Arc::strong_count(&u) == 1 {
                    break;
                }
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            f.lock().unwrap().off = true;
            ok = r.is_ok();
            ensure!(i.borrow().contents() == b, "unpacking changed the archive");
            if ok {
                let got: Tree = u.snapshot();
                for (p, b) in &t {
                    let q = norm(&std::path::Path::new("out/src").join(p));
                    ensure!(got.get(&q) == Some(b), "success reported, but {p:?} was not unpacked as it was");
                }
            }
        }
    }
    let g = f.lock().unwrap();
    Ok(Made { fired: g.fired, ops: g.ops, ok })
}

fn faulty(c: &FCase, cov: &mut Cov) -> Res {
    let base = f_run(c, None).map_err(|e| Fail { msg: format!("without a fault: {}", e.msg), ..e })?;
    ensure!(base.ok, "the operation failed without a fault");
    let (mut refused, mut survived) = (0, 0);
    let points: HashSet<u64> = if base.ops <= c.at.len() as u64 {
        (0..base.ops).collect()
    } else {
        c.at.iter().map(|a| u64::from(*a) * base.ops / 65_536).collect()
    };
    for k in points {
        let m = f_run(c, Some((k, c.kind))).map_err(|e| Fail { msg: format!("{:?} with {:?} at I/O operation {k} of {}: {}", c.op, c.kind, base.ops, e.msg), ..e })?;
        if m.fired {
            cov.evals(1);
            if m.ok {
                survived += 1;
            } else {
                refused += 1;
            }
        }
    }
    cov.label(format!("{:?}", c.op));
    cov.label(format!("{:?}", c.kind));
    if survived > 0 {
        cov.label("fault survived");
    }
    if refused > 0 {
        cov.label("fault reported");
        cov.nontrivial();
    }
    Ok(())
}

pub fn c16(ctx: &Ctx) {
    ctx.check("faults", ctx.scale(2500, 40_000), || f_strategy(false), faulty);
    ctx.check("archive_faults", ctx.scale(900, 15_000), || f_strategy(true), faulty);
}

// ------------------------------------------------------------------ C17

const WORDS: &str = include_str!("/repo/crates/volaris-crypto/src/wordlist.lst");

fn pass(n: i32) -> String {
    corecrypto::key::generate_passphrase(&n).expose().clone()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Phrase {
    n: i32,
    seed: u64,
}

/// The words of a passphrase (no word of the list contains the separator; if one ever does, the
/// longest match is taken).
fn split<'a>(p: &'a str, words: &HashSet<&str>) -> Option<Vec<&'a str>> {
    if p.is_empty() {
        return Some(vec![]);
    }
    if !words.iter().any(|w| w.contains('-')) {
        let v: Vec<&str> = p.split('-').collect();
        return v.iter().all(|w| words.contains(w)).then_some(v);
    }
    let parts: Vec<usize> = p.match_indices('-').map(|(i, _)| i).chain([p.len()]).collect();
    let mut best: Vec<Option<usize>> = vec![None; parts.len() + 1];
    best[0] = Some(0);
    let start = |k: usize| if k == 0 { 0 } else { parts[k - 1] + 1 };
    for e in 1..=parts.len() {
        for s in (e.saturating_sub(4)..e).rev() {
            if best[s].is_some() && words.contains(&p[start(s)..parts[e - 1]]) {
                best[e] = Some(s);
                break;
            }
        }
    }
    let mut v = vec![];
    let mut e = parts.len();
    while e > 0 {
        let s = best[e]?;
        v.push(&p[start(s)..parts[e - 1]]);
        e = s;
    }
    v.reverse();
    Some(v)
}

fn phrase(c: &Phrase, cov: &mut Cov) -> Res {
    let words: HashSet<&str> = WORDS.lines().collect();
    let p = pass(c.n);
    let v = split(&p, &words).ok_or_else(|| format!("{p:?} is not made of words of the list"))?;
    ensure!(v.len() == c.n.max(0) as usize, "{} words instead of {}", v.len(), c.n);
    // determined by the system's entropy and by nothing else
    let n = c.n;
    let (a, used) = seeded(c.seed, || pass(n))?;
    let (b, _) = seeded(c.seed, || pass(n))?;
    ensure!(a == b, "something other than the system's entropy decides the words");
    if n > 0 {
        ensure!(used >= 2 * n.min(16) as u64, "{used} bytes of entropy for {n} words");
    }
    if n >= 5 {
        let (d, _) = seeded(c.seed ^ 0xdead, || pass(n))?;
        ensure!(a != d, "other entropy, same passphrase");
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Draws {
    seed: u64,
    per_word: u64,
    /// words per passphrase
    chunk: i32,
}

/// Every word can come out, none is preferred, and a word does not depend on the ones before.
fn draws(c: &Draws, cov: &mut Cov) -> Res {
    let list: Vec<&str> = WORDS.lines().collect();
    let set: HashSet<&str> = list.iter().copied().collect();
    let index: HashMap<&str, usize> = list.iter().enumerate().map(|(i, w)| (*w, i)).collect();
    let total = c.per_word * list.len() as u64;
    let mut seq: Vec<usize> = vec![];
    let mut phrases = HashSet::new();
    let mut made: Vec<String> = seeded(c.seed, || (0..total.div_ceil(c.chunk as u64)).map(|_| pass(c.chunk)).collect())?.0;
    made.reverse();
    while (seq.len() as u64) < total {
        let Some(p) = made.pop() else { fail!("passphrases of fewer than {} words", c.chunk) };
        let v = split(&p, &set).ok_or("not made of words of the list")?;
        seq.extend(v.iter().map(|w| index[w]));
        ensure!(phrases.insert(p.clone()) || c.chunk < 5, "the passphrase {p:?} came out twice");
    }
    let mut count = vec![0u64; list.len()];
    for i in &seq {
        count[*i] += 1;
    }
    if c.per_word >= 40 {
        // with 40 expected, a word is missing with chance 4e-18, or comes up 140 times with 1e-30
        let missing: Vec<&str> = list.iter().filter(|w| count[index[*w]] == 0).copied().collect();
        ensure!(missing.is_empty(), "{} words never came out of {} draws: {:?}", missing.len(), seq.len(), &missing[..missing.len().min(5)]);
        let (i, m) = count.iter().enumerate().max_by_key(|x| x.1).unwrap();
        ensure!(*m < 140 * c.per_word / 40, "{:?} came out {m} times in {} draws", list[i], seq.len());
    }
    // all counts together: neither more nor less alike than chance makes them (12 deviations)
    let expect = seq.len() as f64 / list.len() as f64;
    let chi: f64 = count.iter().map(|n| (*n as f64 - expect).powi(2) / expect).sum();
    let df = list.len() as f64 - 1.0;
    ensure!((chi - df).abs() < 12.0 * (2.0 * df).sqrt(), "the counts of the words deviate by {chi:.0} instead of about {df} (chi-square) in {} draws", seq.len());
    // dependence between neighbours within a passphrase: at a fixed distance in the list, or never
    // equal
    for lag in 1..=8usize.min(c.chunk as usize - 1) {
        let mut diff: HashMap<usize, u64> = HashMap::new();
        let mut n = 0u64;
        for p in seq.chunks(c.chunk as usize) {
            for w in p.windows(lag + 1) {
                *diff.entry((w[lag] + list.len() - w[0]) % list.len()).or_default() += 1;
                n += 1;
            }
        }
        let (d, m) = diff.iter().max_by_key(|x| x.1).unwrap();
        let expect = n as f64 / list.len() as f64;
        ensure!((*m as f64) < 5.0 * expect + 60.0, "words {lag} apart are {d} entries apart {m} times in {n} draws");
        if expect >= 20.0 {
            ensure!(diff.contains_key(&0), "words {lag} apart were never equal in {n} draws");
        }
        if expect >= 35.0 {
            // missing by chance: below 5e-12
            ensure!(diff.len() == list.len(), "words {lag} apart were never some distances apart in {n} draws");
        }
    }
    // the distribution over the list, over all draws and at places within the passphrase
    // (Kolmogorov-Smirnov; by chance below 1e-10)
    let even = |what: String, at: &mut Vec<usize>| -> Res {
        at.sort_unstable();
        let n = at.len() as f64;
        let l = list.len() as f64;
        let mut worst = 0f64;
        for (k, i) in at.iter().enumerate() {
            // the step of the list's own distribution at this word, before and after
            let (lo, hi) = (*i as f64 / l, (*i as f64 + 1.0) / l);
            if k + 1 == at.len() || at[k + 1] != *i {
                worst = worst.max(((k + 1) as f64 / n - hi).abs());
            }
            if k == 0 || at[k - 1] != *i {
                worst = worst.max((k as f64 / n - lo).abs());
            }
        }
        ensure!(worst * n.sqrt() < 3.5, "{what}: the share of some part of the list is off by {worst:.4} in {n} draws");
        Ok(())
    };
    even("all words".into(), &mut seq.clone())?;
    let n = c.chunk as usize;
    for pos in [0, 1, n / 2, n - 1] {
        let mut at: Vec<usize> = seq.iter().skip(pos).step_by(n).copied().collect();
        if at.len() > 2000 {
            even(format!("word {pos}"), &mut at)?;
        }
    }
    cov.evals(phrases.len() as u64);
    cov.label(format!("chunk_{}", c.chunk));
    cov.nontrivial();
    Ok(())
}

pub fn c17(ctx: &Ctx) {
    ctx.check("no_entropy", ctx.scale(1_500, 30_000), || no_entropy_strategy(true), no_entropy);
    ctx.check(
        "words",
        ctx.scale(3000, 40_000),
        || {
            (prop_oneof![8 => 0i32..12, 2 => 12i32..200, 1 => prop::sample::select(vec![-1, -5, i32::MIN, 1000])], any::<u64>())
                .prop_map(|(n, seed)| Phrase { n, seed })
                .boxed()
        },
        phrase,
    );
    ctx.check(
        "draws",
        ctx.scale(8, 80),
        || {
            (any::<u64>(), prop::sample::select(vec![3i32, 5, 7, 12, 1000, 20_000]))
                .prop_map(|(seed, chunk)| Draws { seed, per_word: 40, chunk })
                .boxed()
        },
        draws,
    );
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Secret {
    bytes: Vec<u8>,
    text: String,
}

fn debug_forms<T: std::fmt::Debug>(x: &T) -> Vec<String> {
    vec![format!("{x:?}"), format!("{x:#?}"), format!("{:?}", Some(x)), format!("{:60?}", x), format!("{:x?}", x)]
}

fn protected(c: &Secret, cov: &mut Cov) -> Res {
    use corecrypto::protected::Protected;
    use std::sync::atomic::{AtomicUsize, Ordering};
    // what is shown does not depend on the secret
    let blank: Vec<String> = debug_forms(&Protected::new(Vec::<u8>::new()));
    for (k, f) in debug_forms(&Protected::new(c.bytes.clone())).into_iter().enumerate() {
        ensure!(f == blank[k], "the debug form {f:?} depends on the secret");
    }
    for (k, f) in debug_forms(&Protected::new(c.text.clone())).into_iter().enumerate() {
        ensure!(f == blank[k], "the debug form {f:?} depends on the secret");
    }
    let mut arr = [0u8; 32];
    for (a, b) in arr.iter_mut().zip(&c.bytes) {
        *a = *b;
    }
    for (k, f) in debug_forms(&Protected::new(arr)).into_iter().enumerate() {
        ensure!(f == blank[k], "the debug form {f:?} depends on the secret");
    }
    // it still is the secret
    let p = Protected::new(c.bytes.clone());
    let q = p.clone();
    ensure!(*p.expose() == c.bytes && **q == c.bytes[..] && q.len() == c.bytes.len(), "the secret changed");
    drop(p);
    ensure!(*q.expose() == c.bytes, "dropping the original changed the clone");

    // wiped exactly by being dropped
    static WIPED: AtomicUsize = AtomicUsize::new(0);
    #[derive(Clone)]
    struct Probe(Arc<AtomicUsize>);
    impl zeroize::Zeroize for Probe {
        fn zeroize(&mut self) {
            self.0.fetch_add(1, Ordering::SeqCst);
            WIPED.fetch_add(1, Ordering::SeqCst);
        }
    }
    let n = Arc::new(AtomicUsize::new(0));
    let a = Protected::new(Probe(n.clone()));
    let b = a.clone();
    ensure!(n.load(Ordering::SeqCst) == 0, "wiped while in use");
    drop(a);
    ensure!(n.load(Ordering::SeqCst) >= 1, "dropped without being wiped");
    let one = n.load(Ordering::SeqCst);
    let r = guard(move || {
        let _b = b;
        panic!("unwinding");
    });
    ensure!(r.is_err() && n.load(Ordering::SeqCst) > one, "not wiped when unwinding");

    // the memory itself
    if c.bytes.len() >= 16 {
        let bytes = c.bytes.clone();
        let (_, rep) = crate::alloc::watch(vec![c.bytes.clone(), c.text.clone().into_bytes()], || {
            let p = Protected::new(bytes);
            let q = p.clone();
            drop(q);
            drop(p);
            let s = Protected::new(String::from(c.text.as_str()));
            let t = s.clone();
            drop((s, t));
            let z = Protected::new(vec![vec![1u8; 40], c.bytes.clone()]);
            drop(z);
        });
        ensure!(rep.hits[0] == 0, "the bytes of a dropped secret are still in memory");
        ensure!(c.text.len() < 8 || rep.hits[1] == 0, "the text of a dropped secret is still in memory");
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leak {
    op: FOp,
    cfg: Cfg,
    pw_len: usize,
    data: Data,
    seed: u64,
    /// 0: works; 1: wrong password; 2: damaged
    outcome: u8,
    detached: bool,
}

fn leak_strategy() -> BoxedStrategy<Leak> {
    use FOp::*;
    (
        prop::sample::select(vec![Encrypt, Encrypt, Decrypt, Decrypt, KeyAdd, KeyChange, KeyDelete, KeyVerify, Pack, Unpack]),
        cfg(),
        prop_oneof![16usize..40, 40usize..300],
        data_of(prop_oneof![3 => 64usize..6000, 1 => (1usize..3, 0usize..3000).prop_map(|(k, d)| k * MIB + d)].boxed()),
        any::<u64>(),
        0u8..3,
        any::<bool>(),
    )
        .prop_map(|(op, cfg, pw_len, mut data, seed, outcome, detached)| {
            data.fill = 1;
            Leak { op, cfg, pw_len, data, seed, outcome, detached }
        })
        .boxed()
}

/// No block of memory an operation gives back holds the password; nor, when it succeeds, the
/// plaintext it had in its buffers, or the key of the data.
fn leak(c: &Leak, cov: &mut Cov) -> Res {
    let pw = prand(c.seed, c.pw_len);
    let new = prand(c.seed ^ 77, c.pw_len + 3);
    let wrong = prand(c.seed ^ 99, c.pw_len);
    let pt = c.data.bytes();
    // not of data that ends up in the clear in files of the harness: buffers there are preallocated
    let tail = pt.len() / 32 * 32;
    let needles = vec![pw.clone(), new.clone(), wrong.clone(), pt[..32].to_vec(), pt[tail - 32..tail].to_vec()];
    let room = |n: usize| {
        let m = MemFile::new(vec![]);
        m.st.lock().unwrap().data.reserve_exact(n + 4096);
        m
    };
    let memory = matches!(c.op, FOp::Decrypt) && c.seed % 3 == 0;
    let spec = Spec { version: c.cfg.version, alg: c.cfg.alg, memory, slots: vec![(c.cfg.kdf, pw.clone())], seed: c.seed };
    let mut what = vec!["the password", "the new password", "the wrong password", "the first bytes of the plaintext", "the last bytes of the plaintext"];
    let used = if c.outcome == 1 { &wrong } else { &pw };
    let (ok, rep, clear);
    match c.op {
        FOp::Encrypt => {
            let (i, o, h) = (MemFile::new(pt.clone()).cell(), room(pt.len() + 1000).cell(), room(1000).cell());
            let (k, n) = (ops::prot(&pw), c.detached.then_some(&h));
            let (r, p) = crate::alloc::watch(needles, || {
                tools::encrypt::execute(tools::encrypt::Request {
                    reader: &i,
                    writer: &o,
                    header_writer: n,
                    raw_key: k,
                    header_type: ops::header_type(c.cfg.version, c.cfg.alg, false),
                    hashing_algorithm: refc::kdf_lib(c.cfg.kdf),
                })
                .is_ok()
            });
            (ok, rep, clear) = (r, p, true);
            ensure!(ok, "encrypting failed");
        }
        FOp::Decrypt => {
            let b = spec.build(&pt);
            let mut body = b.body.clone();
            if c.outcome == 2 {
                let n = body.len();
                body[n - 1] ^= 1;
            }
            let src = if c.detached { body } else { [b.header.clone(), body].concat() };
            let (i, o, h) = (MemFile::new(src).cell(), room(pt.len()).cell(), MemFile::new(b.header.clone()).cell());
            let k = ops::prot(used);
            let mut needles = needles;
            // The last step of a stream moves the cipher out of its box, which leaves the key it
            // holds behind: not something Rust code can wipe. AES round keys are not wiped by
            // the crate in use either. Only the other mode of the others is held to it.
            if spec.memory && c.cfg.alg != Alg::Aes {
                needles.push(b.key.to_vec());
                what.push("the key of the data");
            }
            let (r, p) = crate::alloc::watch(needles, || {
                tools::decrypt::execute(tools::decrypt::Request {
                    header_reader: c.detached.then_some(&h),
                    reader: &i,
                    writer: &o,
                    raw_key: k,
                    on_decrypted_header: None,
                })
                .is_ok()
            });
            (ok, rep, clear) = (r, p, r && !memory);
            ensure!(ok == (c.outcome == 0), "decrypting: {ok}");
        }
        FOp::KeyAdd | FOp::KeyChange | FOp::KeyDelete | FOp::KeyVerify => {
            let spec = Spec { version: 5, slots: vec![(c.cfg.kdf, pw.clone()), (5, b"another".to_vec())], ..spec };
            let b = spec.build(&pt);
            let i = MemFile::new(b.file()).cell();
            let mut needles = needles;
            needles.push(b.key.to_vec());
            what.push("the key of the data");
            let (k, n) = (ops::prot(used), ops::prot(&new));
            let kdf = refc::kdf_lib(c.cfg.kdf);
            let (r, p) = crate::alloc::watch(needles, || match c.op {
                FOp::KeyAdd => tools::key::add::execute(tools::key::add::Request { handle: &i, raw_key_old: k, raw_key_new: n, hash_algorithm: kdf }).is_ok(),
                FOp::KeyChange => {
                    tools::key::change::execute(tools::key::change::Request { handle: &i, raw_key_old: k, raw_key_new: n, hash_algorithm: kdf }).is_ok()
                }
                FOp::KeyDelete => tools::key::delete::execute(tools::key::delete::Request { handle: &i, raw_key_old: k }).is_ok(),
                _ => tools::key::verify::execute(tools::key::verify::Request { handle: &i, raw_key: k }).is_ok(),
            });
            (ok, rep, clear) = (r, p, false);
            ensure!(ok == (c.outcome != 1), "key operation: {ok}");
        }
        FOp::Pack | FOp::PackDetached => {
            let s = MemStorage::new();
            s.put("src/f", pt.clone());
            let s = Arc::new(s);
            let entries = pack_entries(&s, &[PathBuf::from("src")])?;
            let o = room(pt.len() + 9000).cell();
            let k = ops::prot(&pw);
            let (r, p) = crate::alloc::watch(needles, || {
                tools::pack::execute(
                    s.clone(),
                    tools::pack::Request {
                        writer: &o,
                        compress_files: entries,
                        compression_method: zip::CompressionMethod::Stored,
                        header_writer: None,
                        raw_key: k,
                        header_type: ops::header_type(c.cfg.version, c.cfg.alg, false),
                        hashing_algorithm: refc::kdf_lib(c.cfg.kdf),
                    },
                )
                .is_ok()
            });
            (ok, rep, clear) = (r, p, false);
            ensure!(ok, "packing failed");
        }
        _ => {
            let s = MemStorage::new();
            s.put("src/f", pt.clone());
            let (f, _) = pack_mem(&Arc::new(s), "src", &pw, &c.cfg, false, zip::CompressionMethod::Stored)?;
            let s = Arc::new(MemStorage::new());
            let i = MemFile::new(f).cell();
            let k = ops::prot(used);
            let (r, p) = crate::alloc::watch(needles, || {
                tools::unpack::execute(
                    s.clone(),
                    tools::unpack::Request {
                        reader: &i,
                        header_reader: None,
                        raw_key: k,
                        output_dir_path: PathBuf::from("out"),
                        on_decrypted_header: None,
                        on_archive_info: None,
                        on_zip_file: None,
                    },
                )
                .is_ok()
            });
            (ok, rep, clear) = (r, p, false);
            ensure!(ok == (c.outcome != 1), "unpacking: {ok}");
        }
    }
    for (k, w) in what.iter().enumerate() {
        let plaintext = k == 3 || k == 4;
        if rep.hits[k] > 0 && (!plaintext || clear) {
            fail!("{:?}: memory given back still holds {w}", c.op);
        }
    }
    cov.label(format!("{:?}", c.op));
    cov.label(if ok { "ok" } else { "refused" });
    cov.nontrivial();
    Ok(())
}

/// Making a passphrase leaves no part of it behind: it is known beforehand from the same entropy.
fn phrase_memory(c: &Phrase, cov: &mut Cov) -> Res {
    let n = c.n;
    let (known, _) = seeded(c.seed, || pass(n))?;
    let b = known.as_bytes();
    // what a block holds of it if the rest has not been added yet
    let needles: Vec<Vec<u8>> = [b.len(), b.len() / 2, b.len() / 4, 12].iter().filter(|k| **k >= 12 && **k <= b.len()).map(|k| b[..*k].to_vec()).collect();
    let searched = !needles.is_empty();
    let ((same, hits), _) = seeded(c.seed, move || {
        let (same, rep) = crate::alloc::watch(needles, || {
            let p = corecrypto::key::generate_passphrase(&n);
            *p.expose() == known
        });
        (same, rep.hits)
    })?;
    ensure!(hits.iter().all(|h| *h == 0), "memory given back still holds the beginning of a passphrase of {n} words");
    if same && searched {
        cov.nontrivial();
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    ctx.check(
        "passphrase",
        ctx.scale(400, 6000),
        || (prop_oneof![4 => 1i32..20, 1 => 20i32..400], any::<u64>()).prop_map(|(n, seed)| Phrase { n, seed }).boxed(),
        phrase_memory,
    );
    ctx.check(
        "protected",
        ctx.scale(4000, 60_000),
        || {
            (vec(any::<u8>(), 0..80), "\\PC{0,40}")
                .prop_map(|(mut bytes, text)| {
                    if let Some(b) = bytes.first_mut() {
                        *b |= 1;
                    }
                    Secret { bytes, text }
                })
                .boxed()
        },
        protected,
    );
    ctx.check("memory", ctx.scale(5_000, 120_000), leak_strategy, leak);
}

// ------------------------------------------------------------------ C20

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Base {
    Random(Data),
    File(Spec, Data),
    /// a valid encryption of the (mutated) bytes of a zip archive
    Zip(TreeSpec),
    /// an archive written entry by entry, with whatever names
    Entries(Vec<ZEnt>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Set(u32, u8),
    SetHead(u8, u8),
    /// near the end of the file
    SetTail(u16, u8),
    Int(u32, u8, u8),
    IntTail(u16, u8, u8),
    Truncate(u32),
    Insert(u32, Data),
    Delete(u32, u16),
    Dup(u32, u16),
}

fn edit() -> BoxedStrategy<Edit> {
    let b = || prop_oneof![prop::sample::select(vec![0u8, 1, 2, 3, 4, 5, 6, 0x0C, 0x0E, 0x7f, 0x80, 0xA0, 0xB0, 0xB4, 0xDE, 0xDF, 0xff]), any::<u8>()];
    prop_oneof![
        3 => (any::<u32>(), b()).prop_map(|(p, v)| Edit::Set(p, v)),
        4 => (0u8..130, b()).prop_map(|(p, v)| Edit::SetHead(p, v)),
        4 => (0u16..200, b()).prop_map(|(p, v)| Edit::SetTail(p, v)),
        1 => (any::<u32>(), 1u8..9, b()).prop_map(|(p, n, v)| Edit::Int(p, n, v)),
        2 => (0u16..300, 1u8..9, b()).prop_map(|(p, n, v)| Edit::IntTail(p, n, v)),
        1 => any::<u32>().prop_map(Edit::Truncate),
        1 => (any::<u32>(), data_of((1usize..600).boxed())).prop_map(|(p, d)| Edit::Insert(p, d)),
        1 => (any::<u32>(), 1u16..600).prop_map(|(p, n)| Edit::Delete(p, n)),
        1 => (any::<u32>(), 1u16..600).prop_map(|(p, n)| Edit::Dup(p, n)),
    ]
    .boxed()
}

fn edit_apply(b: &mut Vec<u8>, e: &Edit) {
    if b.is_empty() {
        if let Edit::Insert(_, d) = e {
            *b = d.bytes();
        }
        return;
    }
    let n = b.len();
    match e {
        Edit::Set(p, v) => b[*p as usize % n] = *v,
        Edit::SetHead(p, v) => b[*p as usize % n] = *v,
        Edit::SetTail(p, v) => b[n - 1 - *p as usize % n] = *v,
        Edit::Int(p, k, v) => {
            let s = *p as usize % n;
            let e = (s + *k as usize).min(n);
            b[s..e].fill(*v);
        }
        Edit::IntTail(p, k, v) => {
            let s = n - 1 - *p as usize % n;
            let e = (s + *k as usize).min(n);
            b[s..e].fill(*v);
        }
        Edit::Truncate(p) => b.truncate(*p as usize % n),
        Edit::Insert(p, d) => {
            let s = *p as usize % n;
            b.splice(s..s, d.bytes());
        }
        Edit::Delete(p, k) => {
            let s = *p as usize % n;
            b.drain(s..(s + *k as usize).min(n));
        }
        Edit::Dup(p, k) => {
            let s = *p as usize % n;
            let d = b[s..(s + *k as usize).min(n)].to_vec();
            b.splice(s..s, d);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    base: Base,
    edits: Vec<Edit>,
    pw: Vec<u8>,
    r: Chunk,
    /// also damage the outside of an encrypted archive
    outer: Vec<Edit>,
    second: Data,
}

fn hostile_strategy(zip: bool) -> BoxedStrategy<Hostile> {
    let base = if zip {
        prop_oneof![
            2 => tree(4, false).prop_map(Base::Zip),
            1 => evil_strategy(false).prop_map(|e| Base::Entries(e.entries)),
        ]
        .boxed()
    } else {
        prop_oneof![
            1 => data_of(small_len()).prop_map(Base::Random),
            5 => (spec(vec![1, 2, 3, 4, 5, 5, 5], true), data_of(prop_oneof![9 => small_len(), 1 => len_strategy(1)].boxed())).prop_map(|(s, d)| Base::File(s, d)),
        ]
        .boxed()
    };
    (base, vec(edit(), 0..5), password(), chunk_tiny(), prop_oneof![5 => Just(vec![]), 1 => vec(edit(), 1..3)], data_of(small_len()))
        .prop_map(|(base, edits, pw, mut r, outer, second)| {
            let len = match &base {
                Base::Random(d) | Base::File(_, d) => d.len,
                Base::Zip(_) | Base::Entries(_) => 0,
            };
            if len > 10_000 {
                r = Chunk::Full;
            }
            Hostile { base, edits, pw, r, outer, second }
        })
        .boxed()
}

fn hostile(c: &Hostile, cov: &mut Cov) -> Res {
    use corecrypto::header::Header;
    let mut pw = c.pw.clone();
    let zipped = matches!(c.base, Base::Zip(_) | Base::Entries(_));
    let mut b = match &c.base {
        Base::Random(d) => d.bytes(),
        Base::File(s, d) => {
            pw = s.slots[0].1.clone();
            s.build(&d.bytes()).file()
        }
        Base::Zip(t) => zip_of(&t.build())?,
        Base::Entries(es) => raw_zip(es),
    };
    for e in &c.edits {
        edit_apply(&mut b, e);
    }
    let spec = Spec { version: 5, alg: Alg::XChaCha, memory: false, slots: vec![(5, pw.clone())], seed: 3 };
    if zipped {
        b = spec.build(&b).file();
        for e in &c.outer {
            edit_apply(&mut b, e);
        }
    }
    let file = |b: &Vec<u8>| MemFile::new(b.clone()).chunks(&c.r, &Chunk::Full).cell();
    let empty = || MemFile::new(vec![]).cell();
    // one block each way and small change
    let limit = (8 << 20) + 8 * (b.len() + c.second.len) as i64;
    let run = |what: &str, f: &mut dyn FnMut() -> bool| -> Result<bool, Fail> {
        let (r, rep) = crate::alloc::watch(vec![], || guard(f));
        if !zipped && what != "unpacking" && rep.peak > limit {
            fail!("{what} takes {} bytes of memory for an input of {}", rep.peak, b.len());
        }
        r.map_err(|p| Fail::from(format!("{what} panics: {p}")))
    };
    let mut accepted = vec![];
    let mut note = |n: &str, ok: bool| {
        if ok {
            accepted.push(n.to_string());
        }
    };
    if !zipped {
        note(
            "deserialize",
            run("reading the header", &mut || match Header::deserialize(&mut *file(&b).borrow_mut()) {
                Ok((h, _)) => {
                    // what was accepted can be asked about and written out
                    let _ = (h.get_size(), h.create_aad().is_ok(), h.serialize().is_ok(), h.write(&mut Vec::new()).is_ok());
                    true
                }
                Err(_) => false,
            })?,
        );
        note("decrypt", run("decrypting", &mut || ops::decrypt(&pw, &file(&b), &empty(), None).is_ok())?);
        let other = c.second.bytes();
        note("decrypt with it as header", run("decrypting with a detached header", &mut || ops::decrypt(&pw, &file(&other), &empty(), Some(&file(&b))).is_ok())?);
        note("decrypt it with another header", run("decrypting with a detached header", &mut || ops::decrypt(&pw, &file(&b), &empty(), Some(&file(&other))).is_ok())?);
        note("dump", run("dumping the header", &mut || ops::dump(&file(&b), &empty()).is_ok())?);
        note("restore from", run("restoring a header", &mut || ops::restore(&file(&b), &file(&other)).is_ok())?);
        note("restore onto", run("restoring a header", &mut || ops::restore(&file(&spec.build(&[]).header), &file(&b)).is_ok())?);
        note("strip", run("stripping the header", &mut || ops::strip(&file(&b)).is_ok())?);
        note("verify", run("verifying a key", &mut || ops::key_verify(&file(&b), &pw).is_ok())?);
        note("add", run("adding a key", &mut || ops::key_add(&file(&b), &pw, b"new", 5).is_ok())?);
        note("change", run("changing a key", &mut || ops::key_change(&file(&b), &pw, b"new", 5).is_ok())?);
        note("delete", run("deleting a key", &mut || ops::key_delete(&file(&b), &pw).is_ok())?);
        note("hash", run("hashing", &mut || ops::hash(MemFile::new(b.clone())).is_ok())?);
        cov.evals(12);
    }
    if zipped || b.len() < 3000 {
        let s = Arc::new(MemStorage::new());
        note("unpack", run("unpacking", &mut || unpack_from(&s, &file(&b), None, &pw, "out").is_ok())?);
        for p in s.snapshot().keys() {
            ensure!(p.starts_with("out"), "unpacking left {p:?}");
        }
    }
    cov.label(if accepted.iter().any(|a| a != "hash" && a != "strip" && a != "restore onto") { "something accepted" } else { "refused" });
    if !c.edits.is_empty() || matches!(c.base, Base::Random(_) | Base::Entries(_)) {
        cov.nontrivial();
    }
    Ok(())
}

fn zip_of(t: &Tree) -> Result<Vec<u8>, String> {
    use std::io::Write;
    let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
    for (k, (p, c)) in t.iter().enumerate() {
        let m = if k % 2 == 0 { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Zstd };
        let o: zip::write::FileOptions<'_, ()> = zip::write::FileOptions::default().compression_method(m);
        let n = p.to_str().unwrap();
        match c {
            None => z.add_directory(n, o).map_err(|e| e.to_string())?,
            Some(b) => {
                z.start_file(n, o).map_err(|e| e.to_string())?;
                z.write_all(b).map_err(|e| e.to_string())?;
            }
        }
    }
    Ok(z.finish().map_err(|e| e.to_string())?.into_inner())
}

pub fn c20(ctx: &Ctx) {
    ctx.check("bytes", ctx.scale(24_000, 750_000), || hostile_strategy(false), hostile);
    ctx.check("archives", ctx.scale(24_000, 750_000), || hostile_strategy(true), hostile);
}

// ------------------------------------------------------------------ C23

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aead {
    alg: Alg,
    seed: u64,
    aad: Data,
    msg: Data,
    flip: u32,
    /// further messages of a stream, each with its own associated data
    parts: Vec<(Data, Data)>,
}

fn aead_strategy() -> BoxedStrategy<Aead> {
    let d = || data_of(prop_oneof![4 => 0usize..80, 1 => 0usize..3000].boxed());
    (prop::sample::select(ALGS.to_vec()), any::<u64>(), d(), d(), any::<u32>(), vec((d(), d()), 0..6))
        .prop_map(|(alg, seed, aad, msg, flip, parts)| Aead { alg, seed, aad, msg, flip, parts })
        .boxed()
}

fn aead_case(c: &Aead, cov: &mut Cov) -> Res {
    use corecrypto::cipher::Ciphers;
    use corecrypto::primitives::{get_nonce_len, Mode};
    use corecrypto::protected::Protected;
    use corecrypto::stream::{DecryptionStreams, EncryptionStreams};
    use corecrypto::Payload;
    let key: [u8; 32] = prand(c.seed, 32).try_into().unwrap();
    let nl = c.alg.nonce_len();
    let lib = c.alg.lib();
    ensure!(get_nonce_len(&lib, &Mode::MemoryMode) == nl && get_nonce_len(&lib, &Mode::StreamMode) == nl - 4, "nonce lengths");
    let nonce = prand(c.seed ^ 1, nl);
    let (aad, msg) = (c.aad.bytes(), c.msg.bytes());
    let want = refc::seal(c.alg, &key, &nonce, &aad, &msg);
    let ci = Ciphers::initialize(Protected::new(key), &lib).map_err(|e| e.to_string())?;
    let got = ci.encrypt(&nonce, Payload { msg: &msg, aad: &aad }).map_err(|_| "encrypt failed")?;
    ensure!(got == want, "encrypt differs from the specification at {:?}", diff(&got, &want));
    let mut buf = msg.clone();
    ci.encrypt_in_place(&nonce, &aad, &mut buf).map_err(|_| "encrypt_in_place failed")?;
    ensure!(buf == want, "encrypt_in_place differs from encrypt");
    let plain = ci.encrypt(&nonce, msg.as_slice()).map_err(|_| "encrypt failed")?;
    ensure!(plain == refc::seal(c.alg, &key, &nonce, &[], &msg), "encrypt without associated data differs");
    ensure!(ci.decrypt(&nonce, Payload { msg: &want, aad: &aad }).ok().as_deref() == Some(&msg[..]), "decrypt does not invert encrypt");
    // any change of any part is refused
    let bit = |b: &mut [u8]| {
        let i = c.flip as usize % (b.len() * 8);
        b[i / 8] ^= 1 << (i % 8);
    };
    let mut bad = want.clone();
    bit(&mut bad);
    ensure!(ci.decrypt(&nonce, Payload { msg: &bad, aad: &aad }).is_err(), "a damaged message was accepted");
    let mut n2 = nonce.clone();
    bit(&mut n2);
    ensure!(ci.decrypt(&n2, Payload { msg: &want, aad: &aad }).is_err(), "another nonce was accepted");
    let mut a2 = aad.clone();
    if a2.is_empty() {
        a2.push(0);
    } else {
        bit(&mut a2);
    }
    ensure!(ci.decrypt(&nonce, Payload { msg: &want, aad: &a2 }).is_err(), "other associated data were accepted");
    ensure!(ci.decrypt(&nonce, Payload { msg: &want[..c.flip as usize % want.len()], aad: &aad }).is_err(), "a truncated message was accepted");
    let mut k2 = key;
    bit(&mut k2);
    let cj = Ciphers::initialize(Protected::new(k2), &lib).map_err(|e| e.to_string())?;
    ensure!(cj.decrypt(&nonce, Payload { msg: &want, aad: &aad }).is_err(), "another key was accepted");

    // the stream
    let prefix = prand(c.seed ^ 2, nl - 4);
    for wrong in [prefix.len() + 1, prefix.len() - 1, 0, nl] {
        ensure!(EncryptionStreams::initialize(Protected::new(key), &vec![0; wrong], &lib).is_err(), "a nonce of {wrong} bytes was accepted");
    }
    let mut e = EncryptionStreams::initialize(Protected::new(key), &prefix, &lib).map_err(|e| e.to_string())?;
    let mut cts = vec![];
    let n = |i: usize, last: bool| [&prefix[..], &(i as u32 | u32::from(last) << 31).to_le_bytes()].concat();
    for (i, (m, a)) in c.parts.iter().enumerate() {
        let (m, a) = (m.bytes(), a.bytes());
        let ct = e.encrypt_next(Payload { msg: &m, aad: &a }).map_err(|_| "encrypt_next failed")?;
        ensure!(ct == refc::seal(c.alg, &key, &n(i, false), &a, &m), "part {i} of the stream differs from the specification");
        cts.push((ct, a, m));
    }
    let last = e.encrypt_last(Payload { msg: &msg, aad: &aad }).map_err(|_| "encrypt_last failed")?;
    ensure!(last == refc::seal(c.alg, &key, &n(c.parts.len(), true), &aad, &msg), "the last part of the stream differs from the specification");
    let open = || DecryptionStreams::initialize(Protected::new(key), &prefix, &lib).map_err(|e| e.to_string());
    let mut d = open()?;
    for (i, (ct, a, m)) in cts.iter().enumerate() {
        ensure!(d.decrypt_next(Payload { msg: ct, aad: a }).ok().as_ref() == Some(m), "part {i} does not decrypt");
    }
    ensure!(d.decrypt_last(Payload { msg: &last, aad: &aad }).ok().as_deref() == Some(&msg[..]), "the last part does not decrypt");
    // parts out of place
    let mut d = open()?;
    if cts.len() >= 2 {
        ensure!(d.decrypt_next(Payload { msg: &cts[1].0, aad: &cts[1].1 }).is_err(), "the second part was accepted as the first");
        let d = open()?;
        ensure!(d.decrypt_last(Payload { msg: &cts[0].0, aad: &cts[0].1 }).is_err(), "a part was accepted as the last one");
    } else if cts.is_empty() {
        ensure!(d.decrypt_next(Payload { msg: &last, aad: &aad }).is_err(), "the last part was accepted as one in between");
    } else {
        ensure!(d.decrypt_last(Payload { msg: &last, aad: &aad }).is_err(), "a stream without its first part was accepted");
    }
    cov.label(format!("{:?}", c.alg));
    cov.label(format!("parts_{}", c.parts.len()));
    cov.nontrivial();
    Ok(())
}

pub fn c23(ctx: &Ctx) {
    ctx.check("aead", ctx.scale(40_000, 1_600_000), aead_strategy, aead_case);
}

// ------------------------------------------------------------------ C24

/// A long input that is not stored anywhere, and an output that is only counted and hashed.
struct Source {
    len: u64,
    pos: u64,
    seed: u8,
}
impl std::io::Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.len.saturating_sub(self.pos)) as usize;
        for (i, x) in b[..n].iter_mut().enumerate() {
            let p = self.pos + i as u64;
            *x = (p as u8) ^ ((p >> 8) as u8) ^ ((p >> 20) as u8).wrapping_mul(37) ^ self.seed;
        }
        self.pos += n as u64;
        Ok(n)
    }
}
impl std::io::Seek for Source {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            std::io::SeekFrom::Start(n) => n,
            std::io::SeekFrom::End(d) => self.len.saturating_add_signed(d),
            std::io::SeekFrom::Current(d) => self.pos.saturating_add_signed(d),
        };
        Ok(self.pos)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Big {
    alg: Alg,
    blocks: u64,
    extra: u64,
    seed: u8,
    op: u8,
}

const PEAK: i64 = 12 << 20;

fn big(ctx: &Ctx, c: &Big, cov: &mut Cov) -> Res {
    let len = c.blocks * MIB as u64 + c.extra;
    let sc = Scratch::new(&ctx.scratch);
    let open = |n: &str| std::cell::RefCell::new(std::fs::File::options().read(true).write(true).create(true).truncate(true).open(sc.path().join(n)).unwrap());
    let src = || Source { len, pos: 0, seed: c.seed };
    let limit = |what: &str, peak: i64| -> Res {
        ensure!(peak <= PEAK, "{what} {len} bytes took {peak} bytes of memory");
        Ok(())
    };
    let expect = {
        let mut h = blake3::Hasher::new();
        std::io::copy(&mut src(), &mut h).unwrap();
        h.finalize().to_hex().to_string()
    };
    let file_hash = |n: &str| {
        let mut h = blake3::Hasher::new();
        std::io::copy(&mut std::fs::File::open(sc.path().join(n)).unwrap(), &mut h).unwrap();
        h.finalize().to_hex().to_string()
    };
    let (r, rep) = crate::alloc::watch(vec![], || {
        tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: std::cell::RefCell::new(src()) })
    });
    ensure!(r.map_err(|e| e.to_string())? == expect, "wrong hash");
    limit("hashing", rep.peak)?;
    if c.op == 0 {
        let (i, o) = (std::cell::RefCell::new(src()), open("enc"));
        let (r, rep) = crate::alloc::watch(vec![], || {
            tools::encrypt::execute(tools::encrypt::Request {
                reader: &i,
                writer: &o,
                header_writer: None,
                raw_key: ops::prot(b"pw"),
                header_type: ops::header_type(5, c.alg, false),
                hashing_algorithm: refc::kdf_lib(5),
            })
        });
        r.map_err(|e| e.to_string())?;
        limit("encrypting", rep.peak)?;
        use std::io::Seek;
        o.borrow_mut().rewind().unwrap();
        let d = open("dec");
        let (r, rep) = crate::alloc::watch(vec![], || {
            tools::decrypt::execute(tools::decrypt::Request { header_reader: None, reader: &o, writer: &d, raw_key: ops::prot(b"pw"), on_decrypted_header: None })
        });
        r.map_err(|e| e.to_string())?;
        limit("decrypting", rep.peak)?;
        ensure!(file_hash("dec") == expect, "the round trip of {len} bytes changed the content");
        cov.label("encrypt");
    } else {
        std::fs::create_dir(sc.path().join("src")).unwrap();
        let mut h = blake3::Hasher::new();
        {
            use std::io::Write;
            let mut f = std::fs::File::create(sc.path().join("src/big")).unwrap();
            let mut left = len as usize;
            let mut i = 0u64;
            if c.blocks >= 4096 {
                // a hole in front, which is read as zeros
                let hole = len - 3 * MIB as u64;
                f.set_len(hole).unwrap();
                std::io::Seek::seek(&mut f, std::io::SeekFrom::End(0)).unwrap();
                std::io::copy(&mut std::io::Read::take(std::io::repeat(0), hole), &mut h).unwrap();
                left = 3 * MIB;
            }
            while left > 0 {
                let mut blk = vec![c.seed; left.min(MIB)];
                for (k, x) in blk.iter_mut().enumerate().step_by(4099) {
                    *x = (i as u8) ^ (k as u8);
                }
                h.update(&blk);
                f.write_all(&blk).unwrap();
                left -= blk.len();
                i += 1;
            }
        }
        let content = h.finalize().to_hex().to_string();
        let s = Arc::new(tools::storage::FileStorage);
        let root = sc.path().join("src");
        let entries = pack_entries(&s, &[root.clone()])?;
        let o = open("enc");
        let m = if c.op == 1 { zip::CompressionMethod::Stored } else { zip::CompressionMethod::Zstd };
        let (r, rep) = crate::alloc::watch(vec![], || {
            tools::pack::execute(
                s.clone(),
                tools::pack::Request {
                    writer: &o,
                    compress_files: entries,
                    compression_method: m,
                    header_writer: None,
                    raw_key: ops::prot(b"pw"),
                    header_type: ops::header_type(5, c.alg, false),
                    hashing_algorithm: refc::kdf_lib(5),
                },
            )
        });
        r.map_err(|e| e.to_string())?;
        let archive = o.borrow().metadata().unwrap().len();
        limit("packing", rep.peak)?;
        use std::io::Seek;
        o.borrow_mut().rewind().unwrap();
        let out = sc.path().join("out");
        let (r, rep) = crate::alloc::watch(vec![], || {
            tools::unpack::execute(
                s.clone(),
                tools::unpack::Request {
                    reader: &o,
                    header_reader: None,
                    raw_key: ops::prot(b"pw"),
                    output_dir_path: out.clone(),
                    on_decrypted_header: None,
                    on_archive_info: None,
                    on_zip_file: None,
                },
            )
        });
        r.map_err(|e| e.to_string())?;
        limit("unpacking", rep.peak)?;
        let found = walk(&out).into_iter().find(|p| p.ends_with("src/big"));
        let mut h = blake3::Hasher::new();
        match found {
            Some(p) => std::io::copy(&mut std::fs::File::open(p).unwrap(), &mut h).unwrap(),
            None => fail!("the packed file was not unpacked"),
        };
        ensure!(h.finalize().to_hex().to_string() == content, "packing and unpacking {len} bytes changed them");
        if c.op == 2 {
            ensure!(archive < 4 << 20, "compression of {len} equal bytes gave {archive}");
            cov.label("compressed");
        } else {
            cov.label("stored");
        }
    }
    cov.nontrivial();
    Ok(())
}

fn walk(p: &std::path::Path) -> Vec<std::path::PathBuf> {
    let mut v = vec![];
    for e in std::fs::read_dir(p).unwrap().flatten() {
        if e.file_type().unwrap().is_dir() {
            v.extend(walk(&e.path()));
        } else {
            v.push(e.path());
        }
    }
    v
}

/// A file that is only looked at while it is overwritten: what was written to each MiB.
struct Sink {
    len: u64,
    pos: u64,
    /// (zeros, other bytes, whether the last write was of zeros)
    parts: Vec<(u64, u64, bool)>,
    beyond: bool,
}

impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = (self.pos / MIB as u64) as usize;
        let n = b.len().min(MIB - self.pos as usize % MIB);
        let b = &b[..n];
        match self.parts.get_mut(k) {
            Some(part) if self.pos + n as u64 <= self.len => {
                part.2 = b.iter().fold(0, |a, x| a | x) == 0;
                *(if part.2 { &mut part.0 } else { &mut part.1 }) += n as u64;
            }
            _ => self.beyond |= n > 0,
        }
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl std::io::Seek for Sink {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.pos = match p {
            std::io::SeekFrom::Start(n) => n,
            std::io::SeekFrom::Current(n) => self.pos.wrapping_add_signed(n),
            std::io::SeekFrom::End(n) => self.len.wrapping_add_signed(n),
        };
        Ok(self.pos)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Wipe {
    len: u64,
    passes: i32,
    /// a file on disk, through `erase`
    real: bool,
}

fn wipe(ctx: &Ctx, c: &Wipe, cov: &mut Cov) -> Res {
    let peak = if c.real {
        let sc = Scratch::new(&ctx.scratch);
        let p = sc.path().join("f");
        std::fs::File::create(&p).unwrap().set_len(c.len).unwrap();
        let s = Arc::new(tools::storage::FileStorage);
        let (r, rep) = crate::alloc::watch(vec![], || tools::erase::execute(s, tools::erase::Request { path: &p, passes: c.passes }));
        r.map_err(|e| e.to_string())?;
        ensure!(!p.exists(), "the file is still there");
        cov.label("erase");
        rep.peak
    } else {
        let parts = vec![(0, 0, false); c.len.div_ceil(MIB as u64) as usize];
        let w = std::cell::RefCell::new(Sink { len: c.len, pos: 0, parts, beyond: false });
        let (r, rep) = crate::alloc::watch(vec![], || {
            tools::overwrite::execute(tools::overwrite::Request { writer: &w, buf_capacity: usize::try_from(c.len).unwrap(), passes: c.passes })
        });
        r.map_err(|e| e.to_string())?;
        let w = w.into_inner();
        ensure!(!w.beyond, "overwriting {} bytes wrote more than that", c.len);
        for (k, (zeros, others, last)) in w.parts.iter().enumerate() {
            let n = (c.len - k as u64 * MIB as u64).min(MIB as u64);
            ensure!(
                *last && *zeros >= n && *others >= n * c.passes as u64,
                "overwriting {} bytes with {} passes: of the {n} at {k} MiB, {others} were overwritten with random bytes and {zeros} with zeros",
                c.len,
                c.passes
            );
        }
        cov.label("overwrite");
        rep.peak
    };
    ensure!(peak <= PEAK, "overwriting {} bytes took {peak} bytes of memory", c.len);
    cov.nontrivial();
    Ok(())
}

pub fn c24(ctx: &Ctx) {
    ctx.check(
        "overwrite",
        ctx.scale(6, 30),
        || prop_oneof![1 => (24u64 << 20..64 << 20, 0i32..3).prop_map(|(len, passes)| Wipe { len, passes, real: true }), 1 => (64u64 << 20..400 << 20, 0i32..2).prop_map(|(len, passes)| Wipe { len, passes, real: false })].boxed(),
        |c, cov| wipe(ctx, c, cov),
    );
    let over = [(1u64 << 32) + 513, (1 << 31) + 7].into_iter().map(|len| Wipe { len, passes: 1, real: false }).collect();
    ctx.enumerate("overwrite_huge", over, |c, cov| wipe(ctx, c, cov));
    let strat = |op: Vec<u8>| {
        (prop::sample::select(ALGS.to_vec()), 24u64..72, prop::sample::select(vec![0u64, 1, 17, 500_000, 1_048_575]), any::<u8>(), prop::sample::select(op))
            .prop_map(|(alg, blocks, extra, seed, op)| Big { alg, blocks, extra, seed, op })
            .boxed()
    };
    let long = |op: Vec<u8>, blocks: std::ops::Range<u64>| {
        (prop::sample::select(ALGS.to_vec()), blocks, 1u64..MIB as u64, any::<u8>(), prop::sample::select(op))
            .prop_map(|(alg, blocks, extra, seed, op)| Big { alg, blocks, extra, seed, op })
            .boxed()
    };
    // past the sizes and counts that fit in 32 and 8 bits
    ctx.check("long_stream", ctx.scale(4, 40), || long(vec![0], 256..600), |c, cov| big(ctx, c, cov));
    ctx.check("huge_file", ctx.scale(1, 2), || long(vec![2], 4096..4100), |c, cov| big(ctx, c, cov));
    ctx.check("stream", ctx.scale(24, 300), || strat(vec![0]), |c, cov| big(ctx, c, cov));
    ctx.check("archive", ctx.scale(12, 100), || strat(vec![1, 2]), |c, cov| big(ctx, c, cov));
}
