//! C10 pack/unpack, C11 confinement, C12 temporary archives.

use super::crypt::*;
use super::*;
use crate::data::*;
use crate::fw::*;
use crate::io::*;
use crate::ops;
use crate::refc::{self, Alg, Spec};
use crate::stor::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Component, Path, PathBuf};
use std::sync::Arc;
use tools::storage::{FileStorage, Storage};

pub type Tree = BTreeMap<PathBuf, Option<Vec<u8>>>;

// ---------------------------------------------------------------- helpers

pub fn pack_entries<RW: std::io::Read + std::io::Write + std::io::Seek, S: Storage<RW>>(
    stor: &Arc<S>,
    roots: &[PathBuf],
) -> Result<Vec<tools::storage::Entry<RW>>, String> {
    // the way the command line collects what to pack
    let mut v = vec![];
    for r in roots {
        let e = stor.read_file(r).map_err(|e| e.to_string())?;
        if e.is_dir() {
            v.extend(stor.read_dir(&e).map_err(|e| e.to_string())?);
        } else {
            v.push(e);
        }
    }
    Ok(v)
}

pub fn pack_mem(
    s: &Arc<MemStorage>,
    root: &str,
    pw: &[u8],
    cfg: &Cfg,
    detached: bool,
    method: zip::CompressionMethod,
) -> Result<(Vec<u8>, Option<Vec<u8>>), Fail> {
    let out = MemFile::new(vec![]).cell();
    let hdr = MemFile::new(vec![]).cell();
    let entries = pack_entries(s, &[PathBuf::from(root)])?;
    pack_into(s, entries, &out, detached.then_some(&hdr), pw, cfg, method)?;
    let o = out.borrow().contents();
    let h = detached.then(|| hdr.borrow().contents());
    Ok((o, h))
}

pub fn pack_into(
    s: &Arc<MemStorage>,
    entries: Vec<tools::storage::Entry<MemFile>>,
    out: &ops::Cell,
    hdr: Option<&ops::Cell>,
    pw: &[u8],
    cfg: &Cfg,
    method: zip::CompressionMethod,
) -> Result<(), String> {
    tools::pack::execute(
        s.clone(),
        tools::pack::Request {
            writer: out,
            compress_files: entries,
            compression_method: method,
            header_writer: hdr,
            raw_key: ops::prot(pw),
            header_type: ops::header_type(cfg.version, cfg.alg, false),
            hashing_algorithm: refc::kdf_lib(cfg.kdf),
        },
    )
    .map_err(|e| format!("pack: {e}"))
}

pub fn unpack_mem(s: &Arc<MemStorage>, file: &[u8], hdr: Option<&[u8]>, pw: &[u8], dest: &str) -> Result<(), String> {
    let i = MemFile::new(file.to_vec()).cell();
    let h = hdr.map(|h| MemFile::new(h.to_vec()).cell());
    unpack_from(s, &i, h.as_ref(), pw, dest)
}

pub fn unpack_from(s: &Arc<MemStorage>, i: &ops::Cell, h: Option<&ops::Cell>, pw: &[u8], dest: &str) -> Result<(), String> {
    tools::unpack::execute(
        s.clone(),
        tools::unpack::Request {
            reader: i,
            header_reader: h,
            raw_key: ops::prot(pw),
            output_dir_path: PathBuf::from(dest),
            on_decrypted_header: None,
            on_archive_info: None,
            on_zip_file: None,
        },
    )
    .map_err(|e| format!("unpack: {e}"))
}

/// Below the extraction directory an entry keeps the plain components of its path.
pub fn inside(dest: &Path, p: &Path) -> PathBuf {
    let mut o = dest.to_path_buf();
    for c in norm_keep(p).components() {
        if let Component::Normal(x) = c {
            o.push(x);
        }
    }
    o
}
fn norm_keep(p: &Path) -> PathBuf {
    p.components().filter(|c| !matches!(c, Component::CurDir)).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TreeSpec {
    /// directories: index of parent (0 is the root), name
    pub dirs: Vec<(u8, String)>,
    pub files: Vec<(u8, String, Data)>,
}

pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        5 => "[a-zA-Z0-9_]{1,8}(\\.[a-z]{1,3})?",
        1 => "\\.[a-z]{1,6}",
        1 => "[.~#_$@%=,-]{1,2}[a-z0-9]{1,4}[~#$]?",
        1 => "[a-z]{1,3}\\.(bak|old|orig|swp|swx|swo|tmp|temp|part|lock|lck|enc|volaris|dexios|zip|gz|zst|tar|log|ini|cfg|db|sock|pid|o|key|hdr|header|crdownload)",
        1 => "[a-z]{1,4} [a-z ]{1,4}[a-z]",
        2 => "[\\p{L}\\p{N}\\p{So}]{1,6}",
        1 => "[-+=,;!#$%&()'~\\[\\]{}@^`:*?\"<>|]{1,6}",
        1 => "\\.\\.[a-z]{1,3}",
        1 => "[a-z]{1,3}\\.\\.",
        1 => "[a-c]{100,200}",
        // the same name in several places, and names that begin like others
        3 => "[abA]{1,2}[~.1]?",
        1 => "[ \t\n\r\u{a0}\u{3000}]?[a-z]{1,3}[ \t\n\r\u{7f}\u{a0}\u{200b}]",
        1 => "[ \t\n\u{1}\u{feff}][a-z]{1,3}",
        1 => prop::sample::select(vec!["src", "dest", "x", "aux", "con.txt", "Thumbs.db", ".DS_Store", "._a", "__MACOSX", ".git", "core", "a.tmp", "a.enc", "a.zip", "\u{e9}", "e\u{301}", "\u{212a}", "K", "stra\u{df}e", "%2e%2e", "~", "-", "--", "-rf", "#a#", "$HOME", "nul"]).prop_map(String::from),
    ]
    .prop_filter("a plain name", |s: &String| s != "." && s != ".." && !s.contains(['/', '\\', '\0']) && s.len() < 250)
    .boxed()
}

pub fn tree(max_files: usize, big: bool) -> BoxedStrategy<TreeSpec> {
    let d = if big {
        data_of(prop_oneof![12 => small_len(), 1 => len_strategy(2)].boxed())
    } else {
        data_of(small_len())
    };
    // one in twenty has paths so long that they outweigh the contents, or directories nested deeply
    let long = prop_oneof![5 => vec("[a-d]{200,240}", 2..5), 2 => vec("[a-d]{1,3}", 5..10), 2 => vec("[a-d]{1,3}", 10..40), 1 => vec("[a-d]", 40..254)];
    (vec((any::<u8>(), name()), 0..6), vec((any::<u8>(), name(), d), 0..max_files), prop::option::weighted(0.08, long))
        .prop_map(|(mut dirs, mut files, long)| {
            if let Some(long) = long {
                dirs = long.into_iter().enumerate().map(|(i, n)| (i as u8, n)).collect();
                let deep = dirs[0].1.len() < 10;
                for (p, n, _) in &mut files {
                    *p = if deep && *p % 2 == 0 { *p } else { dirs.len() as u8 };
                    if deep {
                        continue;
                    }
                    n.insert_str(0, &"l".repeat(248usize.saturating_sub(n.len())));
                }
            }
            TreeSpec { dirs, files }
        })
        .boxed()
}

impl TreeSpec {
    /// relative path -> None (directory) / Some(content); the root itself is not listed
    pub fn build(&self) -> Tree {
        let mut t = Tree::new();
        let mut ds = vec![PathBuf::new()];
        for (p, n) in &self.dirs {
            let d = ds[*p as usize % ds.len()].join(n);
            if t.contains_key(&d) || d.components().count() > 255 {
                continue;
            }
            t.insert(d.clone(), None);
            ds.push(d);
        }
        for (p, n, c) in &self.files {
            let f = ds[*p as usize % ds.len()].join(n);
            if t.contains_key(&f) {
                continue;
            }
            t.insert(f, Some(c.bytes()));
        }
        t
    }
}

pub fn plant(s: &MemStorage, root: &Path, t: &Tree) {
    s.mkdir(root);
    for (p, c) in t {
        match c {
            None => s.mkdir(root.join(p)),
            Some(b) => s.put(root.join(p), b.clone()),
        }
    }
}

// ---------------------------------------------------------------- C10

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PackCase {
    tree: TreeSpec,
    second: Option<TreeSpec>,
    root: String,
    pw: Vec<u8>,
    cfg: Cfg,
    detached: bool,
    zstd: bool,
    chunks: (Chunk, Chunk),
    /// what the extraction directory already holds: nothing, other files, or longer versions of
    /// the same files
    existing: u8,
    dest: String,
    /// every file of the tree is named by itself, instead of the directory
    by_file: bool,
}

fn pack_strategy(big: bool) -> BoxedStrategy<PackCase> {
    (
        (tree(8, big), prop_oneof![3 => Just(None), 1 => tree(3, false).prop_map(Some)]),
        prop::sample::select(vec!["src", "src", "./src", "a/b", "/abs/dir", "../up", "../../up/two", "d/x/../y/src", "src/", "."]),
        password(),
        cfg(),
        any::<bool>(),
        any::<bool>(),
        (chunk(), chunk()),
        0u8..3,
        (prop::sample::select(vec!["dest", "deep/er/dest", "/abs/dest", "./d"]), prop::bool::weighted(0.15)),
    )
        .prop_map(|((tree, second), root, pw, cfg, detached, zstd, chunks, existing, (dest, by_file))| PackCase {
            by_file,
            tree,
            second,
            root: root.into(),
            pw,
            cfg,
            detached,
            zstd,
            chunks,
            existing,
            dest: dest.into(),
        })
        .boxed()
}

/// What unpacking must produce, absolute to the destination.
pub fn expected(dest: &Path, roots: &[(PathBuf, &Tree)]) -> Tree {
    let mut want = Tree::new();
    for (root, t) in roots {
        let base = inside(dest, root);
        let mut d = base.clone();
        while d.as_path() != dest && !d.as_os_str().is_empty() {
            want.insert(d.clone(), None);
            d.pop();
        }
        for (p, c) in *t {
            want.insert(base.join(p), c.clone());
        }
    }
    want
}

fn pack_case(c: &PackCase, cov: &mut Cov) -> Res {
    let t = c.tree.build();
    let t2 = c.second.as_ref().map(TreeSpec::build);
    let mut s = MemStorage::new();
    s.rchunk = c.chunks.0.clone();
    s.wchunk = c.chunks.1.clone();
    plant(&s, Path::new(&c.root), &t);
    let mut roots = vec![PathBuf::from(&c.root)];
    let mut t = t;
    let by_file = c.by_file && t.values().any(Option::is_some);
    if by_file {
        t.retain(|_, x| x.is_some());
        roots = t.keys().map(|p| Path::new(&c.root).join(p)).collect();
    }
    if let Some(t2) = &t2 {
        if c.root != "." {
            plant(&s, Path::new("second tree"), t2);
            roots.push("second tree".into());
        }
    }
    let s = Arc::new(s);
    let before = s.snapshot();
    let out = MemFile::new(vec![]).chunks(&c.chunks.0, &c.chunks.1).cell();
    let hdr = MemFile::new(vec![]).cell();
    let method = if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
    let entries = pack_entries(&s, &roots)?;
    pack_into(&s, entries, &out, c.detached.then_some(&hdr), &c.pw, &c.cfg, method)?;
    ensure!(s.snapshot() == before, "packing changed the storage: {}", tree_diff(&s.snapshot(), &before));
    // unpack elsewhere
    let mut d = MemStorage::new();
    d.wchunk = c.chunks.1.clone();
    d.rchunk = c.chunks.0.clone();
    let dest = norm(Path::new(&c.dest));
    let named = [PathBuf::from(&c.root), "second tree".into()];
    if by_file {
        cov.label("by_file");
        // directories come into being for the files they hold
        for p in t.keys().cloned().collect::<Vec<_>>() {
            for d in p.ancestors().skip(1).filter(|d| !d.as_os_str().is_empty()) {
                t.insert(d.to_path_buf(), None);
            }
        }
    }
    let listed: Vec<(PathBuf, &Tree)> = named.into_iter().zip([Some(&t), t2.as_ref().filter(|_| c.root != ".")]).filter_map(|(r, t)| Some((norm_root(&r), t?))).collect();
    let want = expected(&dest, &listed);
    let mut stay = Tree::new();
    match c.existing {
        1 => {
            d.put(dest.join("unrelated file"), b"keep me".to_vec());
            stay.insert(dest.join("unrelated file"), Some(b"keep me".to_vec()));
        }
        2 => {
            for (p, x) in &want {
                match x {
                    Some(b) => d.put(p, [&b[..], b"old content that was longer"].concat()),
                    None => d.mkdir(p),
                }
            }
        }
        _ => {}
    }
    let d = Arc::new(d);
    let (o, h) = (out.borrow().contents(), hdr.borrow().contents());
    let i = MemFile::new(o).chunks(&c.chunks.0, &c.chunks.1).cell();
    let hc = MemFile::new(h).cell();
    unpack_from(&d, &i, c.detached.then_some(&hc), &c.pw, &c.dest)?;
    let got = d.snapshot();
    let mut all = want;
    all.extend(stay);
    let mut x = dest.clone();
    loop {
        if !x.as_os_str().is_empty() {
            all.insert(x.clone(), None);
        }
        if !x.pop() {
            break;
        }
    }
    ensure!(got == all, "unpacked tree differs: {}", tree_diff(&got, &all));
    let files = t.values().filter(|x| x.is_some()).count();
    if files > 0 {
        cov.nontrivial();
    }
    cov.label(format!("root:{}", c.root));
    cov.label(if c.zstd { "zstd" } else { "stored" });
    cov.label(format!("files:{}", files.min(5)));
    if t.iter().any(|(p, c)| c.is_none() && !t.keys().any(|q| q != p && q.starts_with(p))) {
        cov.label("empty_dir");
    }
    Ok(())
}

/// The names of a root path that survive in the archive: no root, no `.`, and
/// no `..` (which takes back the name before it).
pub fn norm_root(r: &Path) -> PathBuf {
    let mut names = PathBuf::new();
    for c in r.components() {
        match c {
            Component::Normal(x) => names.push(x),
            Component::ParentDir => {
                names.pop();
            }
            _ => {}
        }
    }
    names
}

// on the real file system

fn write_tree(root: &Path, t: &Tree) {
    std::fs::create_dir_all(root).unwrap();
    for (p, c) in t {
        match c {
            None => std::fs::create_dir_all(root.join(p)).unwrap(),
            Some(b) => {
                std::fs::create_dir_all(root.join(p).parent().unwrap()).unwrap();
                std::fs::write(root.join(p), b).unwrap();
            }
        }
    }
}
pub fn read_tree(root: &Path) -> Tree {
    fn go(root: &Path, rel: &Path, t: &mut Tree) {
        let Ok(rd) = std::fs::read_dir(root.join(rel)) else { return };
        for e in rd {
            let e = e.unwrap();
            let p = rel.join(e.file_name());
            let ft = e.file_type().unwrap();
            if ft.is_dir() {
                t.insert(p.clone(), None);
                go(root, &p, t);
            } else if ft.is_symlink() {
                t.insert(p, Some(format!("symlink to {:?}", std::fs::read_link(e.path()).unwrap()).into_bytes()));
            } else {
                t.insert(p, Some(std::fs::read(e.path()).unwrap_or_else(|_| b"<unreadable>".to_vec())));
            }
        }
    }
    let mut t = Tree::new();
    go(root, Path::new(""), &mut t);
    t
}
pub fn real_tree(root: &Path, t: &Tree) {
    write_tree(root, t);
}

fn pack_fs(c: &PackCase, cov: &mut Cov, scratch: &Path) -> Res {
    let dir = Scratch::new(scratch);
    let t = c.tree.build();
    let src = dir.path().join("work").join("src");
    write_tree(&src, &t);
    let stor = Arc::new(FileStorage);
    let e = pack_entries(&stor, &[src.clone()])?;
    let out = stor.create_file(dir.path().join("out")).map_err(|e| e.to_string())?;
    let hdr = stor.create_file(dir.path().join("hdr")).map_err(|e| e.to_string())?;
    let tmp_before = tmp_listing();
    tools::pack::execute(
        stor.clone(),
        tools::pack::Request {
            writer: out.try_writer().unwrap(),
            compress_files: e,
            compression_method: if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored },
            header_writer: c.detached.then(|| hdr.try_writer().unwrap()),
            raw_key: ops::prot(&c.pw),
            header_type: ops::header_type(c.cfg.version, c.cfg.alg, false),
            hashing_algorithm: refc::kdf_lib(c.cfg.kdf),
        },
    )
    .map_err(|e| format!("pack: {e}"))?;
    ensure!(read_tree(&src) == t, "packing changed the source");
    let dest = dir.path().join("dest");
    let want = expected(Path::new(""), &[(norm_root(&src), &t)]);
    if c.existing == 2 {
        for (p, x) in &want {
            match x {
                Some(b) => {
                    std::fs::create_dir_all(dest.join(p).parent().unwrap()).unwrap();
                    std::fs::write(dest.join(p), [&b[..], b"longer"].concat()).unwrap();
                }
                None => std::fs::create_dir_all(dest.join(p)).unwrap(),
            }
        }
    }
    let i = stor.read_file(dir.path().join("out")).map_err(|e| e.to_string())?;
    let h = stor.read_file(dir.path().join("hdr")).map_err(|e| e.to_string())?;
    tools::unpack::execute(
        stor.clone(),
        tools::unpack::Request {
            reader: i.try_reader().unwrap(),
            header_reader: c.detached.then(|| h.try_reader().unwrap()),
            raw_key: ops::prot(&c.pw),
            output_dir_path: dest.clone(),
            on_decrypted_header: None,
            on_archive_info: None,
            on_zip_file: None,
        },
    )
    .map_err(|e| format!("unpack: {e}"))?;
    let got = read_tree(&dest);
    // unpacking an absolute path reproduces the components above the source, too
    ensure!(got == want, "unpacked tree differs on the file system: {}", tree_diff(&got, &want));
    let _ = tmp_before;
    if t.values().any(Option::is_some) {
        cov.nontrivial();
    }
    Ok(())
}

fn tmp_listing() -> Vec<PathBuf> {
    std::fs::read_dir(std::env::temp_dir()).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default()
}

/// Entries a caller declines are left out; all others arrive.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FilterCase {
    tree: TreeSpec,
    mask: u64,
}
fn filter_case(c: &FilterCase, cov: &mut Cov) -> Res {
    let t = c.tree.build();
    let s = MemStorage::new();
    plant(&s, Path::new("src"), &t);
    let cfg = Cfg { version: 5, alg: Alg::XChaCha, kdf: 5 };
    let (o, _) = pack_mem(&Arc::new(s), "src", b"pw", &cfg, false, zip::CompressionMethod::Stored)?;
    let d = Arc::new(MemStorage::new());
    let mask = c.mask;
    let keep = move |p: &Path| mask >> (h64(p.to_string_lossy().as_bytes()) % 64) & 1 == 1;
    let i = MemFile::new(o).cell();
    let info = Arc::new(std::sync::atomic::AtomicUsize::new(usize::MAX));
    let info2 = info.clone();
    // declined directories make their contents unreachable, so only files are declined
    let dirs: Vec<PathBuf> = t.iter().filter(|(_, x)| x.is_none()).map(|(p, _)| Path::new("dest/src").join(p)).chain([PathBuf::from("dest/src")]).collect();
    tools::unpack::execute(
        d.clone(),
        tools::unpack::Request {
            reader: &i,
            header_reader: None,
            raw_key: ops::prot(b"pw"),
            output_dir_path: "dest".into(),
            on_decrypted_header: None,
            on_archive_info: Some(Box::new(move |n| info2.store(n, std::sync::atomic::Ordering::Relaxed))),
            on_zip_file: Some(Box::new(move |p| dirs.contains(&p) || keep(&p))),
        },
    )
    .map_err(|e| format!("unpack: {e}"))?;
    let mut want = expected(Path::new("dest"), &[("src".into(), &t)]);
    let total = want.len();
    want.retain(|p, x| x.is_none() || keep(p));
    ensure!(info.load(std::sync::atomic::Ordering::Relaxed) == want.len(), "announced {} entries, {} are extracted", info.load(std::sync::atomic::Ordering::Relaxed), want.len());
    if want.len() < total {
        cov.nontrivial();
    }
    want.insert("dest".into(), None);
    let got = d.snapshot();
    ensure!(got == want, "declined entries: {}", tree_diff(&got, &want));
    Ok(())
}

/// Trees that are large in some direction: many entries, deep nesting, many things to pack.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Shape {
    dirs: u32,
    files: u32,
    /// every directory lies in the one before it, `depth` of them; then back to the top
    depth: u32,
    roots: u8,
    namelen: u8,
    seed: u64,
    zstd: bool,
    detached: bool,
}

fn shape_strategy() -> BoxedStrategy<Shape> {
    let few = || prop_oneof![3 => 0u32..40, 1 => 0u32..600];
    (few(), prop_oneof![3 => 0u32..200, 1 => 200u32..3000], prop_oneof![Just(1u32), 1u32..8, 8u32..120], 1u8..7, prop_oneof![3 => 1u8..12, 1 => 12u8..120], any::<u64>(), any::<bool>(), any::<bool>())
        .prop_map(|(dirs, files, depth, roots, namelen, seed, zstd, detached)| Shape { dirs, files, depth, roots, namelen, seed, zstd, detached })
        .boxed()
}

fn shape(c: &Shape, cov: &mut Cov) -> Res {
    let n = usize::from(c.roots.max(1));
    let mut trees = vec![Tree::new(); n];
    let draw = prand(c.seed, c.files as usize * 6);
    let mut draw = draw.chunks(6);
    for t in &mut trees {
        let mut ds = vec![PathBuf::new()];
        for k in 0..c.dirs / n as u32 {
            let up = if k % c.depth.max(1) == 0 { PathBuf::new() } else { ds[ds.len() - 1].clone() };
            // an entry's name is kept in 16 bits, a path of the system in 12
            let up = if up.as_os_str().len() > 3000 { PathBuf::new() } else { up };
            let d = up.join(format!("d{k:0w$}", w = usize::from(c.namelen)));
            t.insert(d.clone(), None);
            ds.push(d);
        }
        for k in 0..c.files / n as u32 {
            let Some(r) = draw.next() else { break };
            let d = &ds[u16::from_le_bytes([r[0], r[1]]) as usize % ds.len()];
            let len = match r[2] % 6 {
                0 => 0,
                5 => usize::from(r[3]) * 3,
                _ => usize::from(r[3]) % 12,
            };
            t.insert(d.join(format!("f{k:0w$}", w = usize::from(c.namelen))), Some(prand(c.seed ^ u64::from(k), len)));
        }
    }
    let s = MemStorage::new();
    let roots: Vec<PathBuf> = (0..n).map(|k| PathBuf::from(format!("root{k}/in"))).collect();
    for (r, t) in roots.iter().zip(&trees) {
        plant(&s, r, t);
    }
    let s = Arc::new(s);
    let out = MemFile::new(vec![]).cell();
    let hdr = MemFile::new(vec![]).cell();
    let method = if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
    let cfg = Cfg { version: 5, alg: refc::Alg::XChaCha, kdf: 5 };
    let entries = pack_entries(&s, &roots)?;
    pack_into(&s, entries, &out, c.detached.then_some(&hdr), b"pw", &cfg, method)?;
    let d = Arc::new(MemStorage::new());
    let i = MemFile::new(out.borrow().contents()).cell();
    let h = MemFile::new(hdr.borrow().contents()).cell();
    unpack_from(&d, &i, c.detached.then_some(&h), b"pw", "dest")?;
    let listed: Vec<(PathBuf, &Tree)> = roots.into_iter().zip(&trees).collect();
    let mut want = expected(Path::new("dest"), &listed);
    want.insert("dest".into(), None);
    let got = d.snapshot();
    ensure!(got == want, "unpacked tree differs: {}", tree_diff(&got, &want));
    cov.label(format!("entries<2^{}", 64 - (want.len() as u64).leading_zeros()));
    cov.label(if c.zstd { "zstd" } else { "stored" });
    if want.len() > 2 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn c10(ctx: &Ctx) {
    // more entries than 16 bits can count
    let huge = |zstd, detached| Shape { dirs: 300, files: 66_000, depth: 3, roots: 2, namelen: 5, seed: 7, zstd, detached };
    ctx.enumerate("many_entries", if ctx.tier == Tier::Thorough { vec![huge(false, false), huge(true, true)] } else { vec![huge(false, false)] }, shape);
    ctx.check("shapes", ctx.scale(250, 5_000), shape_strategy, shape);
    ctx.check("tree_roundtrip", ctx.scale(6_000, 150_000), || pack_strategy(true), pack_case);
    let scratch = ctx.scratch.clone();
    ctx.check("tree_roundtrip_fs", ctx.scale(450, 12_000), || pack_strategy(false), |c, cov| pack_fs(c, cov, &scratch));
    ctx.check(
        "declined_entries",
        ctx.scale(800, 12_000),
        || (tree(8, false), any::<u64>()).prop_map(|(tree, mask)| FilterCase { tree, mask }).boxed(),
        filter_case,
    );
    super::clip::c10_cli(ctx);
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ZEnt {
    name: Vec<u8>,
    dir: bool,
    symlink: bool,
    content: Vec<u8>,
    dos: bool,
}

/// A zip file written byte by byte: any entry name whatsoever.
pub fn raw_zip(es: &[ZEnt]) -> Vec<u8> {
    let mut out = vec![];
    let mut cd = vec![];
    for e in es {
        let off = out.len() as u32;
        let crc = crc32fast::hash(&e.content);
        let n = e.content.len() as u32;
        let mut common = vec![];
        common.extend(20u16.to_le_bytes());
        common.extend(0x0800u16.to_le_bytes());
        common.extend(0u16.to_le_bytes());
        common.extend([0, 0, 0x21, 0x58]);
        common.extend(crc.to_le_bytes());
        common.extend(n.to_le_bytes());
        common.extend(n.to_le_bytes());
        common.extend((e.name.len() as u16).to_le_bytes());
        common.extend(0u16.to_le_bytes());
        out.extend(0x0403_4b50u32.to_le_bytes());
        out.extend(&common);
        out.extend(&e.name);
        out.extend(&e.content);
        cd.extend(0x0201_4b50u32.to_le_bytes());
        cd.extend(if e.dos { 20u16 } else { 0x0314 }.to_le_bytes());
        cd.extend(&common);
        cd.extend(0u16.to_le_bytes()); // comment
        cd.extend(0u16.to_le_bytes()); // disk
        cd.extend(0u16.to_le_bytes()); // internal attributes
        let mode: u32 = if e.symlink {
            0o120_777
        } else if e.dir {
            0o040_755
        } else {
            0o100_644
        };
        cd.extend((mode << 16 | if e.dir { 0x10 } else { 0 }).to_le_bytes());
        cd.extend(off.to_le_bytes());
        cd.extend(&e.name);
    }
    let cdo = out.len() as u32;
    let cdl = cd.len() as u32;
    out.extend(cd);
    out.extend(0x0605_4b50u32.to_le_bytes());
    out.extend([0; 4]);
    out.extend((es.len() as u16).to_le_bytes());
    out.extend((es.len() as u16).to_le_bytes());
    out.extend(cdl.to_le_bytes());
    out.extend(cdo.to_le_bytes());
    out.extend(0u16.to_le_bytes());
    out
}

fn evil_name() -> BoxedStrategy<Vec<u8>> {
    let comp = prop_oneof![
        4 => Just("..".to_string()),
        1 => Just(".".to_string()),
        3 => "[a-c]{1,2}",
        1 => Just(String::new()),
        1 => Just("...".to_string()),
        1 => Just("C:".to_string()),
        1 => Just("\\".to_string()),
        1 => Just("..\\..".to_string()),
        1 => Just("a\0b".to_string()),
        1 => Just("link".to_string()),
        1 => Just("~".to_string()),
    ];
    (prop::sample::select(vec!["", "", "/", "//", "\\", "C:\\", "./", "\\\\host\\"]), vec(comp, 1..6), prop::sample::select(vec!["/", "/", "/", "\\", "//"]), prop::sample::select(vec!["", "", "/"]))
        .prop_map(|(p, cs, sep, end)| format!("{p}{}{end}", cs.join(sep)).into_bytes())
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Evil {
    pub entries: Vec<ZEnt>,
    dest: String,
    real: bool,
}

pub fn evil_strategy(real: bool) -> BoxedStrategy<Evil> {
    let ent = (evil_name(), any::<bool>(), prop::bool::weighted(0.15), vec(any::<u8>(), 0..40), any::<bool>()).prop_map(|(name, dir, symlink, content, dos)| {
        let dir = dir && name.ends_with(b"/");
        let content = if symlink { b"../../victim".to_vec() } else if dir { vec![] } else { content };
        ZEnt { name, dir, symlink: symlink && !dir, content, dos }
    });
    (vec(ent, 1..7), prop::sample::select(vec!["dest", "x/y/dest", "/base/dest", "d/../dest"]))
        .prop_map(move |(entries, dest)| Evil { entries, dest: dest.into(), real })
        .boxed()
}

fn sealed(zip: &[u8]) -> Vec<u8> {
    Spec { version: 5, alg: Alg::XChaCha, memory: false, slots: vec![(5, b"pw".to_vec())], seed: 4 }.build(zip).file()
}

fn evil(c: &Evil, cov: &mut Cov) -> Res {
    let file = sealed(&raw_zip(&c.entries));
    let s = MemStorage::new();
    for p in ["victim", "/victim", "x/victim", "/base/victim", "x/y/victim", "a", "/a", "/etc/a"] {
        s.put(p, b"precious".to_vec());
    }
    let dest = norm(Path::new(&c.dest));
    let s = Arc::new(s);
    let before = s.snapshot();
    let r = unpack_mem(&s, &file, None, b"pw", &c.dest);
    let tmp = std::env::temp_dir();
    let mut made = 0;
    for e in s.journal() {
        let (p, what) = match &e {
            SEv::Create(p) => (p, "created"),
            SEv::OpenWrite(p) => (p, "opened for writing"),
            SEv::MkDir(p) => (p, "made directory"),
            SEv::Remove { path, .. } => (path, "removed"),
            SEv::RemoveDir { path, .. } => (path, "removed directory"),
        };
        let temp = p.parent() == Some(tmp.as_path()) && !matches!(e, SEv::MkDir(_));
        // making sure that the way to the destination exists is fine
        if !temp && !(matches!(e, SEv::MkDir(_)) && dest.starts_with(p)) {
            ensure!(p.starts_with(&dest) && !p.components().any(|c| c == Component::ParentDir), "{what} {p:?}, which is outside {dest:?}");
            made += 1;
        }
    }
    for (p, x) in before {
        let now = s.snapshot().get(&p).cloned();
        ensure!(now == Some(x), "{p:?} outside the destination was changed");
    }
    cov.label(if r.is_ok() { "ok" } else { "error" });
    if c.entries.iter().any(|e| e.name.windows(2).any(|w| w == b"..") || e.name.first() == Some(&b'/') || e.symlink) {
        cov.nontrivial();
    }
    if made > 1 {
        cov.label("extracted_something");
    }
    Ok(())
}

fn evil_fs(c: &Evil, cov: &mut Cov, scratch: &Path) -> Res {
    let dir = Scratch::new(scratch);
    // the destination is several levels down, so that a climb stays in the scratch directory
    let dest = dir.path().join("1/2/3/4/5/6/7/8/dest");
    std::fs::create_dir_all(dest.parent().unwrap()).unwrap();
    for p in ["victim", "1/victim", "1/2/3/4/5/6/7/8/victim", "1/2/3/4/5/6/7/victim"] {
        std::fs::write(dir.path().join(p), "precious").unwrap();
    }
    let without = |mut t: Tree| {
        t.retain(|p, _| !p.starts_with("1/2/3/4/5/6/7/8/dest"));
        t
    };
    let before = without(read_tree(dir.path()));
    // absolute names would leave the scratch directory if they were honoured: aim them inside it
    let entries: Vec<ZEnt> = c
        .entries
        .iter()
        .cloned()
        .map(|mut e| {
            if e.name.first() == Some(&b'/') {
                let mut n = dir.path().to_str().unwrap().as_bytes().to_vec();
                n.extend_from_slice(&e.name);
                // no climbing from there
                e.name = String::from_utf8_lossy(&n).replace("..", "up").into_bytes();
            }
            e
        })
        .collect();
    let inp = dir.path().join("in");
    std::fs::write(&inp, sealed(&raw_zip(&entries))).unwrap();
    let stor = Arc::new(FileStorage);
    let i = stor.read_file(&inp).map_err(|e| e.to_string())?;
    let r = tools::unpack::execute(
        stor.clone(),
        tools::unpack::Request {
            reader: i.try_reader().unwrap(),
            header_reader: None,
            raw_key: ops::prot(b"pw"),
            output_dir_path: dest.clone(),
            on_decrypted_header: None,
            on_archive_info: None,
            on_zip_file: None,
        },
    );
    let mut after = without(read_tree(dir.path()));
    after.remove(Path::new("in"));
    ensure!(after == before, "something outside the destination changed: {}", tree_diff(&after, &before));
    for (p, x) in read_tree(&dest) {
        if let Some(b) = x {
            ensure!(!b.starts_with(b"symlink to"), "unpacking created a symbolic link at {p:?}");
        }
    }
    cov.label(if r.is_ok() { "ok" } else { "error" });
    cov.nontrivial();
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    ctx.check("confinement", ctx.scale(25_000, 600_000), || evil_strategy(false), evil);
    let scratch = ctx.scratch.clone();
    ctx.check("confinement_fs", ctx.scale(1_000, 20_000), || evil_strategy(true), |c, cov| evil_fs(c, cov, &scratch));
}

// ---------------------------------------------------------------- C12

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Trouble {
    None,
    WrongPassword,
    /// flip a byte of the encrypted archive
    Flip { pos: u64 },
    Truncate { keep: u64 },
    /// what is inside is not an archive
    NotAnArchive,
    /// archive entries that cannot all be created
    Conflict,
    BadHeader,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Temp {
    tree: TreeSpec,
    big: bool,
    pack: bool,
    detached: bool,
    zstd: bool,
    trouble: Trouble,
    kinds: Vec<FaultKind>,
    /// fault positions tried, as a fraction of all operations; empty: every position
    at: Vec<u16>,
}

fn temp_strategy() -> BoxedStrategy<Temp> {
    (
        tree(4, false),
        prop::bool::weighted(0.1),
        any::<bool>(),
        any::<bool>(),
        any::<bool>(),
        prop_oneof![
            4 => Just(Trouble::None),
            1 => Just(Trouble::WrongPassword),
            2 => any::<u64>().prop_map(|pos| Trouble::Flip { pos }),
            1 => any::<u64>().prop_map(|keep| Trouble::Truncate { keep }),
            1 => Just(Trouble::NotAnArchive),
            1 => Just(Trouble::Conflict),
            1 => Just(Trouble::BadHeader),
        ],
        prop::sample::select(vec![vec![FaultKind::Once], vec![FaultKind::Sticky], vec![FaultKind::Once, FaultKind::Zero, FaultKind::Partial]]),
        vec(any::<u16>(), 3..10),
    )
        .prop_map(|(tree, big, pack, detached, zstd, trouble, kinds, at)| Temp { tree, big, pack, detached, zstd, trouble, kinds, at })
        .boxed()
}

struct TempRun {
    ok: bool,
    ops: u64,
    /// for every temporary file: (removed, content when last seen, log)
    temps: Vec<(bool, Vec<u8>, Vec<Ev>)>,
    fired: Option<Class>,
    fired_on: &'static str,
    last_main: u64,
}

fn temp_run(c: &Temp, fault: Option<(u64, FaultKind)>) -> Result<TempRun, Fail> {
    let mut t = c.tree.build();
    if c.big {
        t.insert("big".into(), Some(prand(5, 2 * MIB + 5)));
    }
    t.entry("plain".into()).or_insert(Some(b"plain text, plain text, plain text".to_vec()));
    let cfg = Cfg { version: 5, alg: Alg::XChaCha, kdf: 5 };
    let method = if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
    let faults = Faults::new(fault);
    let mut s = MemStorage::new();
    s.logging = true;
    let tmp = std::env::temp_dir();
    let res;
    let stor;
    if c.pack {
        plant(&s, Path::new("src"), &t);
        s.faults = Some(faults.clone());
        faults.lock().unwrap().off = true;
        stor = Arc::new(s);
        let mut entries = pack_entries(&stor, &["src".into()])?;
        if c.trouble == Trouble::Conflict {
            // the same path twice: the archive cannot hold it
            entries.extend(pack_entries(&stor, &["src".into()])?);
        }
        faults.lock().unwrap().off = false;
        let out = MemFile::new(vec![]).faults(&faults).cell();
        let hdr = MemFile::new(vec![]).faults(&faults).cell();
        res = guard(|| pack_into(&stor, entries, &out, c.detached.then_some(&hdr), b"pw", &cfg, method));
    } else {
        let src = MemStorage::new();
        plant(&src, Path::new("src"), &t);
        let (mut o, mut h) = match c.trouble {
            Trouble::NotAnArchive => (sealed(&prand(1, 5000)), None),
            Trouble::Conflict => (
                sealed(&raw_zip(&[
                    ZEnt { name: b"a".to_vec(), dir: false, symlink: false, content: b"secret one".repeat(30), dos: false },
                    ZEnt { name: b"a/f".to_vec(), dir: false, symlink: false, content: b"secret two".to_vec(), dos: false },
                ])),
                None,
            ),
            _ => pack_mem(&Arc::new(src), "src", b"pw", &cfg, c.detached, method)?,
        };
        match c.trouble {
            Trouble::Flip { pos } => {
                let n = o.len();
                let start = if h.is_none() { 416 } else { 0 };
                o[start + pos as usize % (n - start)] ^= 4;
            }
            Trouble::Truncate { keep } => {
                let n = keep as usize % o.len();
                o.truncate(n);
            }
            Trouble::BadHeader => match &mut h {
                Some(h) => h[3] = 9,
                None => o[3] = 9,
            },
            _ => {}
        }
        s.faults = Some(faults.clone());
        stor = Arc::new(s);
        let i = MemFile::new(o).faults(&faults).cell();
        let hc = h.map(|h| MemFile::new(h).faults(&faults).cell());
        let pw: &[u8] = if c.trouble == Trouble::WrongPassword { b"pW" } else { b"pw" };
        res = guard(|| unpack_from(&stor, &i, hc.as_ref(), pw, "dest"));
    }
    let res = res.map_err(|p| format!("panic with fault {fault:?}: {p}"))?;
    let mut temps = vec![];
    let j = stor.journal();
    for e in &j {
        if let SEv::Create(p) = e {
            if p.parent() == Some(tmp.as_path()) {
                let removed = j.iter().find_map(|e| match e {
                    SEv::Remove { path, content, log } if path == p => Some((content.clone(), log.clone())),
                    _ => None,
                });
                match removed {
                    Some((content, log)) => temps.push((true, content, log)),
                    None => {
                        let i = stor.inner.lock().unwrap();
                        let Some(Node::File(f)) = i.nodes.get(p) else { fail!("temporary file vanished") };
                        let f = f.lock().unwrap();
                        temps.push((false, f.data.clone(), f.log.clone()));
                    }
                }
            }
        }
    }
    let f = faults.lock().unwrap();
    Ok(TempRun { ok: res.is_ok(), ops: f.ops, temps, fired: f.fired_class, fired_on: f.fired_on, last_main: f.last_main })
}

fn wiped(content: &[u8]) -> bool {
    content.iter().all(|b| *b == 0)
}

fn temp(c: &Temp, cov: &mut Cov) -> Res {
    let base = temp_run(c, None)?;
    ensure!(!base.temps.is_empty() || !base.ok, "no temporary archive seen");
    let mut what = String::new();
    let judge = |r: &TempRun, what: &str| -> Res {
        for (removed, content, log) in &r.temps {
            ensure!(*removed, "{what}: the temporary archive ({} bytes) is left behind", content.len());
            ensure!(wiped(content), "{what}: the temporary archive was removed without its {} bytes being overwritten with zeros", content.len());
            ensure!(!content.is_empty() || log.iter().all(|e| !matches!(e, Ev::Write { .. })), "{what}: the temporary archive was emptied instead of overwritten");
        }
        Ok(())
    };
    what.push_str(&format!("{} ({:?}, {})", if c.pack { "pack" } else { "unpack" }, c.trouble, if base.ok { "succeeded" } else { "failed" }));
    judge(&base, &what)?;
    if base.temps.iter().any(|t| !t.1.is_empty()) {
        cov.nontrivial();
    }
    cov.label(format!("{}_{}", if c.pack { "pack" } else { "unpack" }, if base.ok { "ok" } else { "failed" }));
    // now with an I/O failure somewhere
    let points: Vec<u64> = if c.at.is_empty() { (0..base.ops).collect() } else { c.at.iter().map(|a| u64::from(*a) * base.ops >> 16).collect() };
    for k in points {
        for kind in &c.kinds {
            let r = temp_run(c, Some((k, *kind)))?;
            cov.evals(1);
            let Some(class) = r.fired else { continue };
            if k <= base.last_main && r.fired_on != "file_len" && *kind != FaultKind::Sticky {
                for (removed, content, _) in &r.temps {
                    ensure!(*removed && wiped(content), "{what}, one {class:?} failure at operation {k} ({}): temporary archive removed: {removed}, overwritten: {}", r.fired_on, wiped(content));
                }
                cov.label("main_phase_fault");
            }
            // a failure that hits the clean-up itself can keep it from completing; but a single
            // failure never prevents both the overwriting and the removal
            for (removed, content, _) in &r.temps {
                if *kind == FaultKind::Once || *kind == FaultKind::Partial || *kind == FaultKind::Zero {
                    ensure!(*removed || wiped(content), "{what}, one {class:?} failure at operation {k}: the temporary archive stays behind with its {} bytes", content.len());
                    cov.label("single_fault");
                    if matches!(class, Class::Read) {
                        // nothing of the clean-up reads
                        ensure!(*removed && wiped(content), "{what}, a read failure at operation {k}: temporary archive removed: {removed}, overwritten: {}", wiped(content));
                    }
                } else if matches!(class, Class::Read) {
                    ensure!(*removed && wiped(content), "{what}, reads failing from operation {k} on: temporary archive removed: {removed}, overwritten: {}", wiped(content));
                    cov.label("sticky_read_fault");
                } else if class != Class::Storage {
                    ensure!(*removed, "{what}, {class:?}s failing from operation {k} on: the temporary archive stays behind");
                    cov.label("sticky_fault");
                }
            }
        }
    }
    Ok(())
}

/// Every fault position of a few fixed cases.
fn temp_exhaustive() -> Vec<Temp> {
    let mut v = vec![];
    for pack in [true, false] {
        for detached in [true, false] {
            for trouble in [Trouble::None, Trouble::Flip { pos: 3 }] {
                if pack && trouble != Trouble::None {
                    continue;
                }
                for kinds in [vec![FaultKind::Once], vec![FaultKind::Sticky]] {
                    v.push(Temp {
                        tree: TreeSpec { dirs: vec![(0, "d".into())], files: vec![(1, "f".into(), Data { len: 100, fill: 1, seed: 3 })] },
                        big: false,
                        pack,
                        detached,
                        zstd: false,
                        trouble: trouble.clone(),
                        kinds,
                        at: vec![],
                    });
                }
            }
        }
    }
    v
}

pub fn c12(ctx: &Ctx) {
    ctx.check("temporary_archives", ctx.scale(1_500, 36_000), temp_strategy, temp);
    ctx.enumerate("every_fault_point", temp_exhaustive(), temp);
    super::clip::c12_cli(ctx);
}
