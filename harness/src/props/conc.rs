//! C26 operations side by side.

use super::arch::*;
use super::crypt::*;
use super::*;
use crate::data::*;
use crate::fw::*;
use crate::io::*;
use crate::ops;
use crate::refc;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::path::Path;
use std::sync::{Arc, Barrier};
use tools::storage::{FileStorage, Storage};

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Job {
    /// encrypt, then decrypt, on the file system
    Crypt { data: Data, pw: Vec<u8>, cfg: Cfg, detached: bool },
    /// pack, then unpack
    Archive { tree: TreeSpec, pw: Vec<u8>, cfg: Cfg, zstd: bool },
    Wipe { tree: TreeSpec, passes: i32 },
    Hash { data: Data },
    Keys { pws: Vec<Vec<u8>>, cfg: Cfg },
    Phrase { n: i32 },
    /// something that has to fail, beside others that must not notice
    Fails { kind: u8, data: Data, pw: Vec<u8>, cfg: Cfg },
}

fn job() -> BoxedStrategy<Job> {
    let d = || data_of(prop_oneof![4 => small_len(), 1 => len_strategy(2)].boxed());
    let z = || data_of(small_len());
    prop_oneof![
        3 => (d(), password(), cfg(), any::<bool>()).prop_map(|(data, pw, cfg, detached)| Job::Crypt { data, pw, cfg, detached }),
        4 => (tree(5, false), password(), cfg(), any::<bool>()).prop_map(|(tree, pw, cfg, zstd)| Job::Archive { tree, pw, cfg, zstd }),
        2 => (tree(5, false), 0i32..3).prop_map(|(tree, passes)| Job::Wipe { tree, passes }),
        1 => d().prop_map(|data| Job::Hash { data }),
        2 => (vec(password(), 2..5), cfg()).prop_map(|(pws, mut cfg)| {
            if cfg.version != 5 {
                cfg.version = 5;
            }
            Job::Keys { pws, cfg }
        }),
        1 => (1i32..9).prop_map(|n| Job::Phrase { n }),
        1 => z().prop_map(|data| Job::Hash { data }),
        3 => (0u8..5, z(), password(), cfg()).prop_map(|(kind, data, pw, cfg)| Job::Fails { kind, data, pw, cfg }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Side {
    threads: Vec<Vec<Job>>,
    seed: u64,
}

fn run_job(j: &Job, dir: &Path) -> Res {
    std::fs::create_dir_all(dir).unwrap();
    let stor = Arc::new(FileStorage);
    let e = |what: &'static str| move |e: tools::storage::Error| format!("{what}: {e}");
    match j {
        Job::Crypt { data, pw, cfg, detached } => {
            let pt = data.bytes();
            std::fs::write(dir.join("in"), &pt).unwrap();
            let enc = || -> Res {
                let i = stor.read_file(dir.join("in")).map_err(e("in"))?;
                let o = stor.create_file(dir.join("enc")).map_err(e("enc"))?;
                let h = stor.create_file(dir.join("hdr")).map_err(e("hdr"))?;
                tools::encrypt::execute(tools::encrypt::Request {
                    reader: i.try_reader().unwrap(),
                    writer: o.try_writer().unwrap(),
                    header_writer: detached.then(|| h.try_writer().unwrap()),
                    raw_key: ops::prot(pw),
                    header_type: ops::header_type(cfg.version, cfg.alg, false),
                    hashing_algorithm: refc::kdf_lib(cfg.kdf),
                })
                .map_err(|e| format!("encrypt: {e}"))?;
                Ok(())
            };
            enc()?;
            let i = stor.read_file(dir.join("enc")).map_err(e("enc"))?;
            let h = stor.read_file(dir.join("hdr")).map_err(e("hdr"))?;
            let o = stor.create_file(dir.join("dec")).map_err(e("dec"))?;
            tools::decrypt::execute(tools::decrypt::Request {
                header_reader: detached.then(|| h.try_reader().unwrap()),
                reader: i.try_reader().unwrap(),
                writer: o.try_writer().unwrap(),
                raw_key: ops::prot(pw),
                on_decrypted_header: None,
            })
            .map_err(|e| format!("decrypt: {e}"))?;
            stor.flush_file(&o).map_err(e("flush"))?;
            ensure!(std::fs::read(dir.join("dec")).unwrap() == pt, "decrypted to something else");
            ensure!(std::fs::read(dir.join("in")).unwrap() == pt, "the input changed");
        }
        Job::Archive { tree, pw, cfg, zstd } => {
            let t = tree.build();
            let src = dir.join("src");
            real_tree(&src, &t);
            let entries = pack_entries(&stor, &[src.clone()])?;
            let out = stor.create_file(dir.join("packed")).map_err(e("packed"))?;
            tools::pack::execute(
                stor.clone(),
                tools::pack::Request {
                    writer: out.try_writer().unwrap(),
                    compress_files: entries,
                    compression_method: if *zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored },
                    header_writer: None,
                    raw_key: ops::prot(pw),
                    header_type: ops::header_type(cfg.version, cfg.alg, false),
                    hashing_algorithm: refc::kdf_lib(cfg.kdf),
                },
            )
            .map_err(|e| format!("pack: {e}"))?;
            let i = stor.read_file(dir.join("packed")).map_err(e("packed"))?;
            let dest = dir.join("dest");
            tools::unpack::execute(
                stor.clone(),
                tools::unpack::Request {
                    reader: i.try_reader().unwrap(),
                    header_reader: None,
                    raw_key: ops::prot(pw),
                    output_dir_path: dest.clone(),
                    on_decrypted_header: None,
                    on_archive_info: None,
                    on_zip_file: None,
                },
            )
            .map_err(|e| format!("unpack: {e}"))?;
            let (got, want) = (read_tree(&dest), expected(Path::new(""), &[(norm_root(&src), &t)]));
            ensure!(got == want, "unpacked tree differs: {}", tree_diff(&got, &want));
            ensure!(read_tree(&src) == t, "packing changed the source");
        }
        Job::Wipe { tree, passes } => {
            let t = tree.build();
            real_tree(&dir.join("gone"), &t);
            real_tree(&dir.join("kept"), &t);
            let entry = stor.read_file(dir.join("gone")).map_err(e("gone"))?;
            tools::erase_dir::execute(stor.clone(), tools::erase_dir::Request { entry, passes: *passes }).map_err(|e| format!("erase: {e}"))?;
            ensure!(!dir.join("gone").exists(), "the directory is still there");
            ensure!(read_tree(&dir.join("kept")) == t, "erasing changed a neighbour");
        }
        Job::Hash { data } => {
            let b = data.bytes();
            std::fs::write(dir.join("in"), &b).unwrap();
            let f = std::fs::File::open(dir.join("in")).unwrap();
            let got = tools::hash::execute(tools::hasher::Blake3Hasher::default(), tools::hash::Request { reader: RefCell::new(f) }).map_err(|e| format!("hash: {e}"))?;
            ensure!(got == blake3::hash(&b).to_hex().to_string(), "wrong digest");
        }
        Job::Keys { pws, cfg } => {
            let pt = b"what the keys open".to_vec();
            let f = ops::encrypt_bytes(5, cfg.alg, cfg.kdf, &pws[0], &pt)?;
            let mut now = f;
            for p in &pws[1..] {
                let h = MemFile::new(now).cell();
                ops::key_add(&h, &pws[0], p, cfg.kdf).map_err(|e| format!("add: {e}"))?;
                now = h.borrow().contents();
            }
            for p in pws {
                let (r, got) = ops::decrypt_bytes(p, &now, None);
                ensure!(r.is_ok() && got == pt, "a key does not open the file: {r:?}");
            }
            let last = pws.last().unwrap();
            let h = MemFile::new(now).cell();
            ops::key_delete(&h, last).map_err(|e| format!("delete: {e}"))?;
            let now = h.borrow().contents();
            if pws.iter().filter(|p| *p == last).count() == 1 {
                ensure!(ops::decrypt_bytes(last, &now, None).0.is_err(), "a deleted key still opens the file");
            }
        }
        Job::Fails { kind, data, pw, cfg } => {
            let pt = data.bytes();
            let bad = [&pw[..], b"?"].concat();
            match kind {
                0 => {
                    let f = ops::encrypt_bytes(cfg.version, cfg.alg, cfg.kdf, pw, &pt)?;
                    let (r, got) = ops::decrypt_bytes(&bad, &f, None);
                    ensure!(r.is_err() && got.is_empty(), "decrypting with a wrong password: {r:?}, {} bytes", got.len());
                }
                1 => {
                    let f = MemFile::new(pt).faults(&Faults::new(Some((1, FaultKind::Sticky))));
                    ensure!(ops::hash(f).is_err(), "a digest of what cannot be read");
                }
                2 => {
                    use std::os::unix::fs::PermissionsExt;
                    let inner = dir.join("gone/locked");
                    std::fs::create_dir_all(&inner).unwrap();
                    std::fs::write(inner.join("f"), &pt).unwrap();
                    std::fs::write(dir.join("gone/g"), &pt).unwrap();
                    std::fs::set_permissions(&inner, std::fs::Permissions::from_mode(0o500)).unwrap();
                    let entry = stor.read_file(dir.join("gone")).map_err(e("gone"))?;
                    let r = tools::erase_dir::execute(stor.clone(), tools::erase_dir::Request { entry, passes: 1 });
                    let left = inner.join("f").exists();
                    std::fs::set_permissions(&inner, std::fs::Permissions::from_mode(0o700)).unwrap();
                    ensure!(left && r.is_err(), "erasing a directory with a file that cannot be removed: {}", r.is_ok());
                }
                3 => {
                    let mut f = ops::encrypt_bytes(cfg.version, cfg.alg, cfg.kdf, pw, &pt)?;
                    let n = f.len();
                    f[n - 1] ^= 1;
                    std::fs::write(dir.join("packed"), &f).unwrap();
                    let i = stor.read_file(dir.join("packed")).map_err(e("packed"))?;
                    let dest = dir.join("dest");
                    let r = tools::unpack::execute(
                        stor.clone(),
                        tools::unpack::Request {
                            reader: i.try_reader().unwrap(),
                            header_reader: None,
                            raw_key: ops::prot(pw),
                            output_dir_path: dest.clone(),
                            on_decrypted_header: None,
                            on_archive_info: None,
                            on_zip_file: None,
                        },
                    );
                    ensure!(r.is_err() && (!dest.exists() || read_tree(&dest).is_empty()), "unpacking what is damaged: {}", r.is_ok());
                }
                _ => {
                    let i = MemFile::new(pt).cell();
                    let o = MemFile::new(vec![]).faults(&Faults::new(Some((1, FaultKind::Sticky)))).cell();
                    let r = ops::encrypt(cfg.version, cfg.alg, cfg.kdf, pw, &i, &o, None);
                    ensure!(r.is_err(), "encrypting to what cannot be written");
                }
            }
        }
        Job::Phrase { n } => {
            let p = corecrypto::key::generate_passphrase(n);
            let p = p.expose().clone();
            ensure!(!p.is_empty(), "an empty passphrase");
        }
    }
    Ok(())
}

fn side(ctx: &Ctx, c: &Side, cov: &mut Cov) -> Res {
    let sc = Scratch::new(&ctx.scratch);
    let bar = Barrier::new(c.threads.len());
    let res: Vec<Result<Res, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = c
            .threads
            .iter()
            .enumerate()
            .map(|(k, jobs)| {
                let (bar, sc) = (&bar, &sc);
                s.spawn(move || {
                    getrandom::verif::set(Some(c.seed.wrapping_add(k as u64 * 0x9e37_79b9)));
                    bar.wait();
                    let r = guard(|| -> Res {
                        for (n, j) in jobs.iter().enumerate() {
                            run_job(j, &sc.path().join(format!("{k}-{n}")))?;
                        }
                        Ok(())
                    });
                    getrandom::verif::set(None);
                    r
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic".into()))).collect()
    });
    for (k, r) in res.into_iter().enumerate() {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) => fail!("thread {k} of {}: {}", c.threads.len(), f.msg),
            Err(p) => fail!("thread {k} of {} panics: {p}", c.threads.len()),
        }
    }
    cov.evals(c.threads.iter().map(|t| t.len() as u64).sum::<u64>().saturating_sub(1));
    cov.label(format!("threads{}", c.threads.len()));
    cov.nontrivial();
    Ok(())
}

pub fn c26(ctx: &Ctx) {
    ctx.check(
        "side_by_side",
        ctx.scale(1200, 30_000),
        || (vec(vec(job(), 1..4), 2..6), any::<u64>()).prop_map(|(threads, seed)| Side { threads, seed }).boxed(),
        |c, cov| side(ctx, c, cov),
    );
}
