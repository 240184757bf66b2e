//! C13 erasing a file, C14 erasing a directory, C21 the file-system storage.

use super::arch::*;
use super::*;
use crate::data::*;
use crate::fw::*;
use crate::io::*;
use crate::stor::*;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tools::storage::{Entry, FileStorage, Storage};

// ------------------------------------------------------------------ C13

/// Judges what was written to a file of content `orig` before it was given up: at least `passes`
/// complete passes of fresh random bytes, then zeros over everything, each flushed.
pub fn judge_log(orig: &[u8], log: &[Ev], passes: i32, need_flush: bool) -> Result<(), String> {
    let n = orig.len();
    let want = passes.max(0) as usize;
    if n == 0 {
        return match log.iter().any(|e| matches!(e, Ev::Write { data, .. } if !data.is_empty())) {
            true => Err("an empty file was written to".into()),
            false => Ok(()),
        };
    }
    let mut cur = orig.to_vec();
    let mut covered = vec![false; n];
    let mut left = n;
    let mut done: Vec<Vec<u8>> = vec![];
    let mut flushed = true;
    for e in log {
        match e {
            Ev::Flush => flushed = true,
            Ev::Write { off, data } => {
                if data.is_empty() {
                    continue;
                }
                if left == 0 {
                    // the next pass begins
                    if need_flush && !flushed {
                        return Err(format!("pass {} was not flushed before the next one", done.len()));
                    }
                    covered.iter_mut().for_each(|c| *c = false);
                    left = n;
                }
                let off = *off as usize;
                if off + data.len() > n {
                    return Err(format!("{} bytes written at {off} of a file of {n} bytes", data.len()));
                }
                cur[off..off + data.len()].copy_from_slice(data);
                for c in &mut covered[off..off + data.len()] {
                    if !*c {
                        *c = true;
                        left -= 1;
                    }
                }
                flushed = false;
                if left == 0 {
                    done.push(cur.clone());
                }
            }
        }
    }
    if left != 0 {
        let p = covered.iter().position(|c| !c).unwrap();
        return Err(format!("{left} of {n} bytes were not overwritten in pass {} (first at {p})", done.len()));
    }
    if need_flush && !flushed {
        return Err("the last pass was not flushed".into());
    }
    if done.len() < want + 1 {
        return Err(format!("{} complete passes instead of {} and one of zeros", done.len(), want));
    }
    if cur.iter().any(|b| *b != 0) {
        return Err("the file was not left filled with zeros".into());
    }
    let mut seen: HashSet<Vec<u8>> = HashSet::new();
    for (i, p) in done[..want].iter().enumerate() {
        random_looking(p, &mut seen).map_err(|e| format!("pass {i} over {n} bytes: {e}"))?;
        if n >= 16 && p.chunks(16).zip(orig.chunks(16)).any(|(a, b)| a.len() == 16 && a == b) {
            return Err(format!("pass {i} left original bytes in place"));
        }
    }
    Ok(())
}

/// Chance of refusing truly random bytes: below 2^-50 per call.
pub fn random_looking(p: &[u8], seen: &mut HashSet<Vec<u8>>) -> Result<(), String> {
    let n = p.len();
    if n >= 8 && p.iter().all(|b| *b == p[0]) {
        return Err(format!("every byte is {}", p[0]));
    }
    for (k, w) in p.chunks(16).enumerate() {
        let distinct = w.iter().collect::<HashSet<_>>().len();
        if (w.len() == 16 && distinct < 4) || (w.len() >= 9 && distinct < 2) {
            return Err(format!("bytes {}.. are {w:02x?}", k * 16));
        }
        if w.len() == 16 && !seen.insert(w.to_vec()) {
            return Err(format!("bytes {}.. repeat earlier random bytes", k * 16));
        }
    }
    if n >= 8192 {
        for bit in 0..8 {
            let ones = p.iter().filter(|b| *b >> bit & 1 == 1).count();
            if ones * 10 < n * 4 || ones * 10 > n * 6 {
                return Err(format!("bit {bit} is set in {ones} of {n} bytes"));
            }
        }
        let distinct = p.iter().collect::<HashSet<_>>().len();
        if distinct < 240 {
            return Err(format!("only {distinct} byte values occur"));
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ow {
    data: Data,
    passes: i32,
    start: u64,
    w: Chunk,
    fault: Option<(u64, FaultKind)>,
}

pub fn fault_kind() -> BoxedStrategy<FaultKind> {
    prop::sample::select(vec![FaultKind::Once, FaultKind::Sticky, FaultKind::Partial, FaultKind::Zero, FaultKind::Interrupted]).boxed()
}

fn ow_len() -> BoxedStrategy<usize> {
    prop_oneof![
        3 => 0usize..70,
        4 => (0usize..12, -2i64..3).prop_map(|(k, d)| (512 * k as i64 + d).max(0) as usize),
        3 => 0usize..20_000,
        1 => 60_000usize..400_000,
        1 => (prop::sample::select(vec![4096usize, 8192, 65_536, 1_048_576]), -1i64..2).prop_map(|(k, d)| (k as i64 + d) as usize),
    ]
    .boxed()
}
fn passes() -> BoxedStrategy<i32> {
    prop_oneof![
        12 => 0i32..6,
        2 => 6i32..20,
        1 => prop_oneof![250i32..262, 300i32..700],
        2 => prop::sample::select(vec![-1i32, -7, -256, i32::MIN])
    ]
    .boxed()
}
fn wchunk() -> BoxedStrategy<Chunk> {
    prop_oneof![
        3 => Just(Chunk::Full),
        2 => prop::sample::select(vec![7usize, 100, 511, 512, 513, 4096]).prop_map(Chunk::Max),
        1 => (any::<u64>(), prop::sample::select(vec![20usize, 700, 9000])).prop_map(|(s, m)| Chunk::Random(s, m)),
    ]
    .boxed()
}

fn ow_strategy(faults: bool) -> BoxedStrategy<Ow> {
    let f = if faults {
        (prop_oneof![2 => 0u64..30, 1 => 0u64..400], fault_kind()).prop_map(Some).boxed()
    } else {
        Just(None).boxed()
    };
    let l = if faults { (0usize..6000).boxed() } else { ow_len() };
    (data_of(l), passes(), prop_oneof![1 => Just(0u64), 1 => 0u64..9000], wchunk(), f)
        .prop_map(|(mut data, passes, start, w, fault)| {
            if passes > 3 {
                data.len %= 30_000;
            }
            if passes > 20 {
                data.len %= 1100;
            }
            Ow { data, passes, start, w, fault }
        })
        .boxed()
}

fn overwrite(c: &Ow, cov: &mut Cov) -> Res {
    let orig = c.data.bytes();
    let f = Faults::new(c.fault);
    let mut m = MemFile::new(orig.clone()).chunks(&Chunk::Full, &c.w).faults(&f).logged();
    m.pos = c.start;
    let m = m.cell();
    let r = tools::overwrite::execute(tools::overwrite::Request { writer: &m, buf_capacity: orig.len(), passes: c.passes });
    let fired = f.lock().unwrap().fired;
    let log = m.borrow().st.lock().unwrap().log.clone();
    let len = m.borrow().contents().len();
    ensure!(len == orig.len(), "a file of {} bytes has {len} after overwriting", orig.len());
    match r {
        Ok(()) => judge_log(&orig, &log, c.passes, true)?,
        Err(e) => ensure!(fired, "overwriting failed without a fault: {e}"),
    }
    cov.label(format!("passes_{}", c.passes.clamp(-1, 6)));
    if fired {
        cov.label("fault");
    }
    if orig.len() >= 16 && (c.fault.is_none() || fired) {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Er {
    data: Data,
    passes: i32,
    w: Chunk,
    fault: Option<(u64, FaultKind)>,
    others: Vec<(String, Data)>,
    /// 0 the file, 1 a missing path, 2 a directory
    target: u8,
}

fn er_strategy(faults: bool) -> BoxedStrategy<Er> {
    (ow_strategy(faults), vec((name(), data_of(small_len())), 0..3), prop::sample::select(vec![0u8, 0, 0, 0, 0, 0, 1, 2]))
        .prop_map(|(o, others, target)| Er { data: o.data, passes: o.passes, w: o.w, fault: o.fault, others, target })
        .boxed()
}

fn erase(c: &Er, cov: &mut Cov) -> Res {
    let orig = c.data.bytes();
    let f = Faults::new(c.fault);
    let mut s = MemStorage::new();
    s.logging = true;
    s.wchunk = c.w.clone();
    s.faults = Some(f.clone());
    s.mkdir("top");
    for (n, d) in &c.others {
        s.put(Path::new("top").join(n), d.bytes());
    }
    s.mkdir("top/some directory");
    s.put("top/the target", orig.clone());
    let before = s.snapshot();
    let s = Arc::new(s);
    let path = ["top/the target", "top/not there", "top/some directory"][c.target as usize % 3];
    let r = tools::erase::execute(s.clone(), tools::erase::Request { path, passes: c.passes });
    f.lock().unwrap().off = true;
    let fired = f.lock().unwrap().fired;
    let after = s.snapshot();
    if c.target != 0 {
        ensure!(r.is_err(), "erasing {path:?} succeeded");
        ensure!(after == before, "erasing {path:?}: {}", tree_diff(&after, &before));
        cov.label("no such file");
        return Ok(());
    }
    let target = PathBuf::from(path);
    for (p, b) in &before {
        if *p != target {
            ensure!(after.get(p) == Some(b), "{p:?} changed while {path:?} was erased");
        }
    }
    for p in after.keys() {
        ensure!(before.contains_key(p), "{p:?} appeared while {path:?} was erased");
    }
    judge_journal(&s.inner.lock().unwrap().journal, &before, c.passes)?;
    match r {
        Ok(()) => ensure!(!after.contains_key(&target), "erasing succeeded but the file is still there"),
        Err(e) => ensure!(fired, "erasing failed without a fault: {e}"),
    }
    if fired {
        cov.label("fault");
        cov.label(format!("fault_on_{}", f.lock().unwrap().fired_on));
    }
    if orig.len() >= 16 && (c.fault.is_none() || fired) {
        cov.nontrivial();
    }
    Ok(())
}

/// Every file that disappeared had been overwritten before.
fn judge_journal(j: &[SEv], before: &Tree, passes: i32) -> Result<(), String> {
    for e in j {
        match e {
            SEv::Remove { path, log, .. } => {
                let orig = before.get(path).cloned().flatten().unwrap_or_default();
                judge_log(&orig, log, passes, true).map_err(|e| format!("{path:?} removed, but {e}"))?;
            }
            SEv::RemoveDir { path, files } if !files.is_empty() => {
                return Err(format!("{path:?} was removed with {files:?} not erased"));
            }
            _ => {}
        }
    }
    Ok(())
}

/// The real file system: what a path the operation must refuse looks like afterwards.
fn erase_real(ctx: &Ctx, c: &Er, cov: &mut Cov) -> Res {
    let sc = Scratch::new(&ctx.scratch);
    let d = sc.path();
    let orig = c.data.bytes();
    std::fs::create_dir(d.join("dir")).unwrap();
    std::fs::write(d.join("dir/x"), b"x").unwrap();
    std::fs::write(d.join("file"), &orig).unwrap();
    std::fs::write(d.join("other"), &orig).unwrap();
    let path = [d.join("file"), d.join("missing"), d.join("dir")][c.target as usize % 3].clone();
    let mut want = read_tree(d);
    let r = tools::erase::execute(Arc::new(FileStorage), tools::erase::Request { path: &path, passes: c.passes });
    let after = read_tree(d);
    if c.target == 0 {
        want.remove(Path::new("file"));
        ensure!(r.is_ok(), "erasing a file failed: {:?}", r.err());
        if !orig.is_empty() {
            cov.nontrivial();
        }
    } else {
        ensure!(r.is_err(), "erasing {path:?} succeeded");
    }
    ensure!(after == want, "{}", tree_diff(&after, &want));
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    ctx.check("overwrite", ctx.scale(3000, 60_000), || ow_strategy(false), overwrite);
    ctx.check("overwrite_fault", ctx.scale(6000, 100_000), || ow_strategy(true), overwrite);
    ctx.check("erase", ctx.scale(2000, 40_000), || er_strategy(false), erase);
    ctx.check("erase_fault", ctx.scale(6000, 100_000), || er_strategy(true), erase);
    ctx.check("erase_real", ctx.scale(600, 10_000), || er_strategy(false), |c, cov| erase_real(ctx, c, cov));
    super::clip::c13_cli(ctx);
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Ed {
    tree: TreeSpec,
    passes: i32,
    /// which file, at which of its operations, how
    faults: Vec<(u8, u64, FaultKind)>,
    /// indices of files that are links to somewhere else
    links: Vec<u8>,
    w: Chunk,
    root: u8,
}

fn ed_strategy() -> BoxedStrategy<Ed> {
    (
        tree(9, false),
        prop_oneof![10 => 0i32..4, 2 => Just(-1), 1 => 254i32..260],
        prop_oneof![2 => Just(vec![]), 2 => vec((any::<u8>(), prop_oneof![0u64..4, 0u64..30], fault_kind()), 1..3)],
        prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 1..3)],
        wchunk(),
        0u8..3,
    )
        .prop_map(|(tree, passes, faults, links, w, root)| Ed { tree, passes, faults, links, w, root })
        .boxed()
}

fn settle<T>(a: &Arc<T>) -> bool {
    // threads of an operation that already returned may still be at work
    for _ in 0..20_000 {
        if Arc::strong_count(a) == 1 {
            return true;
        }
        std::thread::sleep(std::time::Duration::from_millis(1));
    }
    false
}

fn erase_dir(c: &Ed, cov: &mut Cov) -> Res {
    let mut s = MemStorage::new();
    s.logging = true;
    s.wchunk = c.w.clone();
    let t = c.tree.build();
    let root = Path::new(["top/dir", "top/a b/dir", "dir"][c.root as usize % 3]);
    plant(&s, root, &t);
    // neighbours whose names begin like the directory's
    for n in ["dir2", "di", "dir.txt", "dir2x/y"] {
        s.put(root.with_file_name("").join(n), format!("neighbour {n}").into_bytes());
    }
    let files: Vec<PathBuf> = t.iter().filter(|(_, b)| b.is_some()).map(|(p, _)| norm(&root.join(p))).collect();
    if !files.is_empty() {
        for l in &c.links {
            s.links.insert(files[*l as usize % files.len()].clone());
        }
        for (i, k, kind) in &c.faults {
            let p = &files[*i as usize % files.len()];
            s.path_faults.insert(p.clone(), Faults::new(Some((*k, *kind))));
        }
    }
    let before = s.snapshot();
    let s = Arc::new(s);
    let entry = s.read_file(root).map_err(|e| e.to_string())?;
    let r = tools::erase_dir::execute(s.clone(), tools::erase_dir::Request { entry, passes: c.passes });
    ensure!(settle(&s), "threads of the operation are still running");
    let after = s.snapshot();
    let fired = s.path_faults.values().any(|f| f.lock().unwrap().fired);
    for (p, b) in &before {
        if !p.starts_with(root) {
            ensure!(after.get(p) == Some(b), "{p:?} changed while {root:?} was erased");
        }
    }
    for p in after.keys() {
        ensure!(before.contains_key(p), "{p:?} appeared");
    }
    for e in &s.inner.lock().unwrap().journal {
        match e {
            SEv::Remove { path, log, .. } => {
                let orig = before.get(path).cloned().flatten().unwrap_or_default();
                judge_log(&orig, log, c.passes, true).map_err(|e| format!("{path:?} removed, but {e}"))?;
            }
            SEv::RemoveDir { path, files } => {
                ensure!(path.starts_with(root), "{path:?} was removed");
                for f in files {
                    ensure!(s.links.contains(f), "{f:?} disappeared with {path:?} without having been erased");
                }
            }
            SEv::OpenWrite(p) => ensure!(!s.links.contains(p), "the target of the link {p:?} was opened for writing"),
            _ => {}
        }
    }
    match &r {
        Ok(()) => ensure!(!after.keys().any(|p| p.starts_with(root)), "the directory is still there: {:?}", after.keys().collect::<Vec<_>>()),
        Err(e) => ensure!(fired, "erasing the directory failed without a fault: {e}"),
    }
    cov.label(if r.is_ok() { "ok" } else { "refused" });
    if fired {
        cov.label("fault");
    }
    if !s.links.is_empty() {
        cov.label("links");
    }
    if files.len() >= 2 && t.values().any(|b| b.as_ref().map_or(false, |b| b.len() >= 16)) {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Extra {
    LinkToFile,
    LinkToDir,
    LinkInside,
    Dangling,
    LinkLoop,
    ReadOnly,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EdReal {
    tree: TreeSpec,
    passes: i32,
    extras: Vec<(u8, String, Extra)>,
    file_root: bool,
}

fn ed_real_strategy() -> BoxedStrategy<EdReal> {
    let x = prop::sample::select(vec![
        Extra::LinkToFile,
        Extra::LinkToFile,
        Extra::LinkToDir,
        Extra::LinkToDir,
        Extra::LinkInside,
        Extra::Dangling,
        Extra::LinkLoop,
        Extra::ReadOnly,
    ]);
    (tree(8, false), 0i32..3, prop_oneof![1 => Just(vec![]).boxed(), 3 => vec((any::<u8>(), "[a-z]{3,8}", x), 1..4).boxed()], prop::bool::weighted(0.05))
        .prop_map(|(tree, passes, extras, file_root)| EdReal { tree, passes, extras, file_root })
        .boxed()
}

fn erase_dir_real(ctx: &Ctx, c: &EdReal, cov: &mut Cov) -> Res {
    use std::os::unix::fs::{symlink, PermissionsExt};
    let sc = Scratch::new(&ctx.scratch);
    let d = sc.path();
    std::fs::create_dir_all(d.join("outside/deep")).unwrap();
    std::fs::write(d.join("outside/kept"), b"precious content that is not part of the directory").unwrap();
    std::fs::write(d.join("outside/deep/kept too"), prand(7, 700)).unwrap();
    std::fs::write(d.join("victim2"), b"neighbour").unwrap();
    let root = d.join("victim");
    let t = c.tree.build();
    std::fs::create_dir(&root).unwrap();
    real_tree(&root, &t);
    let dirs: Vec<PathBuf> =
        std::iter::once(root.clone()).chain(t.iter().filter(|(_, b)| b.is_none()).map(|(p, _)| root.join(p))).collect();
    let mut must_work = true;
    for (i, n, x) in &c.extras {
        let at = dirs[*i as usize % dirs.len()].join(n);
        if std::fs::symlink_metadata(&at).is_ok() {
            continue;
        }
        cov.label(format!("{x:?}"));
        match x {
            Extra::LinkToFile => symlink(d.join("outside/kept"), &at).unwrap(),
            Extra::LinkToDir => symlink(d.join("outside"), &at).unwrap(),
            Extra::LinkInside => match t.iter().find(|(_, b)| b.is_some()) {
                Some((p, _)) => {
                    // whether the target still exists when the link is met depends on the schedule
                    symlink(root.join(p), &at).unwrap();
                }
                None => continue,
            },
            Extra::Dangling => {
                symlink(d.join("nowhere"), &at).unwrap();
                must_work = false;
            }
            Extra::LinkLoop => {
                symlink(&root, &at).unwrap();
            }
            Extra::ReadOnly => {
                std::fs::write(&at, b"cannot be opened for writing").unwrap();
                std::fs::set_permissions(&at, std::fs::Permissions::from_mode(0o444)).unwrap();
                must_work = false;
            }
        }
    }
    let outside = |d: &Path| -> Tree { read_tree(d).into_iter().filter(|(p, _)| !p.starts_with("victim")).collect() };
    let before = outside(d);
    let s = Arc::new(FileStorage);
    if c.file_root {
        let entry = s.read_file(d.join("outside/kept")).map_err(|e| e.to_string())?;
        let r = tools::erase_dir::execute(s.clone(), tools::erase_dir::Request { entry, passes: c.passes });
        ensure!(r.is_err(), "a file was erased as a directory");
        ensure!(outside(d) == before, "{}", tree_diff(&outside(d), &before));
        cov.label("file as directory");
        return Ok(());
    }
    let entry = s.read_file(&root).map_err(|e| e.to_string())?;
    let r = tools::erase_dir::execute(s.clone(), tools::erase_dir::Request { entry, passes: c.passes });
    ensure!(settle(&s), "threads of the operation are still running");
    let after = outside(d);
    ensure!(after == before, "outside of the directory: {}", tree_diff(&after, &before));
    match r {
        Ok(()) => ensure!(std::fs::symlink_metadata(&root).is_err(), "the directory is still there"),
        Err(e) => {
            ensure!(!must_work, "erasing the directory failed: {e}");
            ensure!(root.is_dir(), "failed, but the directory is gone");
        }
    }
    if t.len() >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

pub fn c14(ctx: &Ctx) {
    ctx.check("erase_dir", ctx.scale(4000, 60_000), ed_strategy, erase_dir);
    ctx.check("erase_dir_real", ctx.scale(1500, 20_000), ed_real_strategy, |c, cov| erase_dir_real(ctx, c, cov));
    super::clip::c14_cli(ctx);
}

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    CreateDir(u8),
    Create(u8),
    Read(u8),
    Write(u8),
    Overwrite(u8),
    Temp,
    Put { slot: u8, at: u16, data: Data },
    Get { slot: u8, at: u16 },
    Flush(u8),
    Len(u8),
    ReadDir(u8),
    Remove(u8),
    RemoveDir(u8),
    Drop(u8),
}

const NAMES: [&str; 11] = ["a", "b", "a/x", "a/y", "a/x/p", "b/.q", "b/.q/r s", "c", "c/d/e/f", "a/x/p/\u{e9}\u{1F512}", "zz"];

fn op() -> BoxedStrategy<Op> {
    let p = || 0u8..NAMES.len() as u8;
    let s = || any::<u8>();
    prop_oneof![
        4 => p().prop_map(Op::CreateDir),
        6 => p().prop_map(Op::Create),
        5 => p().prop_map(Op::Read),
        4 => p().prop_map(Op::Write),
        3 => p().prop_map(Op::Overwrite),
        1 => Just(Op::Temp),
        5 => (s(), prop_oneof![Just(0u16), 0u16..3000], data_of((0usize..2000).boxed())).prop_map(|(slot, at, data)| Op::Put { slot, at, data }),
        4 => (s(), prop_oneof![Just(0u16), 0u16..3000]).prop_map(|(slot, at)| Op::Get { slot, at }),
        2 => s().prop_map(Op::Flush),
        3 => s().prop_map(Op::Len),
        3 => s().prop_map(Op::ReadDir),
        3 => s().prop_map(Op::Remove),
        2 => s().prop_map(Op::RemoveDir),
        1 => s().prop_map(Op::Drop),
    ]
    .boxed()
}

#[derive(Clone)]
enum MNode {
    Dir,
    File(usize),
}
#[derive(Default)]
struct Model {
    nodes: BTreeMap<PathBuf, MNode>,
    inodes: Vec<Vec<u8>>,
}
impl Model {
    fn parent_ok(&self, p: &Path) -> bool {
        match p.parent() {
            None => true,
            Some(d) if d.as_os_str().is_empty() => true,
            Some(d) => matches!(self.nodes.get(d), Some(MNode::Dir)),
        }
    }
    fn tree(&self) -> Tree {
        self.nodes
            .iter()
            .map(|(p, n)| {
                (
                    p.clone(),
                    match n {
                        MNode::Dir => None,
                        MNode::File(i) => Some(self.inodes[*i].clone()),
                    },
                )
            })
            .collect()
    }
}

struct Slot {
    e: Entry<std::fs::File>,
    /// None: a directory
    inode: Option<usize>,
    writable: bool,
    path: PathBuf,
    temp: bool,
}

fn storage_model(ctx: &Ctx, ops: &Vec<Op>, cov: &mut Cov) -> Res {
    use std::io::{Read, Seek, SeekFrom, Write};
    let sc = Scratch::new(&ctx.scratch);
    let base = sc.path().to_path_buf();
    let s = FileStorage;
    let mut m = Model::default();
    let mut slots: Vec<Slot> = vec![];
    let mut temps: Vec<PathBuf> = vec![];
    let (mut did_remove, mut did_write) = (false, false);
    let real = |i: &u8| base.join(NAMES[*i as usize % NAMES.len()]);
    let rel = |i: &u8| norm(Path::new(NAMES[*i as usize % NAMES.len()]));
    for (k, op) in ops.iter().enumerate() {
        let at = format!("step {k} {op:?}");
        let mut touched = None;
        match op {
            Op::CreateDir(i) => {
                let r = s.create_dir_all(real(i));
                let p = rel(i);
                let chain: Vec<PathBuf> = p.ancestors().filter(|a| !a.as_os_str().is_empty()).map(Path::to_path_buf).collect();
                let ok = chain.iter().all(|a| !matches!(m.nodes.get(a), Some(MNode::File(_))));
                ensure!(r.is_ok() == ok, "{at}: {:?}", r.err());
                if ok {
                    for a in chain {
                        m.nodes.insert(a, MNode::Dir);
                    }
                } else {
                    // directories above the obstacle may have been made
                    for a in chain.iter().rev() {
                        if m.nodes.contains_key(a) {
                            continue;
                        }
                        if base.join(a).is_dir() && m.parent_ok(a) {
                            m.nodes.insert(a.clone(), MNode::Dir);
                        }
                    }
                }
            }
            Op::Create(i) => {
                let p = rel(i);
                let r = s.create_file(real(i));
                let ok = !m.nodes.contains_key(&p) && m.parent_ok(&p);
                ensure!(r.is_ok() == ok, "{at}: {:?}", r.err());
                if let Ok(e) = r {
                    m.inodes.push(vec![]);
                    m.nodes.insert(p.clone(), MNode::File(m.inodes.len() - 1));
                    slots.push(Slot { e, inode: Some(m.inodes.len() - 1), writable: true, path: real(i), temp: false });
                    touched = Some(slots.len() - 1);
                }
            }
            Op::Read(i) | Op::Write(i) | Op::Overwrite(i) => {
                let p = rel(i);
                let (r, w) = match op {
                    Op::Read(_) => (s.read_file(real(i)), false),
                    Op::Write(_) => (s.write_file(real(i)), true),
                    _ => (s.overwrite_file(real(i)), true),
                };
                let (ok, inode) = match m.nodes.get(&p) {
                    None => (false, None),
                    Some(MNode::Dir) => (!w, None),
                    Some(MNode::File(n)) => (true, Some(*n)),
                };
                ensure!(r.is_ok() == ok, "{at}: {:?}", r.err());
                if let Ok(e) = r {
                    if let (Some(n), Op::Write(_)) = (inode, op) {
                        m.inodes[n].clear();
                    }
                    slots.push(Slot { e, inode, writable: w, path: real(i), temp: false });
                    touched = Some(slots.len() - 1);
                }
            }
            Op::Temp => {
                let e = s.create_temp_file().map_err(|e| format!("{at}: {e}"))?;
                let p = e.path().to_path_buf();
                ensure!(!temps.contains(&p), "{at}: the temporary name {p:?} was used twice");
                let meta = std::fs::symlink_metadata(&p).map_err(|e| format!("{at}: {e}"))?;
                ensure!(meta.is_file() && meta.len() == 0, "{at}: not a new empty file");
                ensure!(p.parent() == Some(std::env::temp_dir().as_path()), "{at}: made {p:?} outside of the temporary directory");
                temps.push(p.clone());
                m.inodes.push(vec![]);
                slots.push(Slot { e, inode: Some(m.inodes.len() - 1), writable: true, path: p, temp: true });
                touched = Some(slots.len() - 1);
            }
            _ if slots.is_empty() => {}
            Op::Put { slot, at: pos, data } => {
                let i = *slot as usize % slots.len();
                let sl = &slots[i];
                let Some(n) = sl.inode else {
                    ensure!(sl.e.try_writer().is_err(), "{at}: a directory can be written to");
                    continue;
                };
                let b = data.bytes();
                let mut f = sl.e.try_writer().map_err(|e| format!("{at}: {e}"))?.borrow_mut();
                let r = f.seek(SeekFrom::Start(u64::from(*pos))).and_then(|_| f.write_all(&b));
                if sl.writable {
                    ensure!(r.is_ok(), "{at}: {:?}", r.err());
                    if !b.is_empty() {
                        let end = *pos as usize + b.len();
                        if m.inodes[n].len() < end {
                            m.inodes[n].resize(end, 0);
                        }
                        m.inodes[n][*pos as usize..end].copy_from_slice(&b);
                        did_write = true;
                    }
                } else {
                    ensure!(r.is_err() || b.is_empty(), "{at}: a file opened for reading was written to");
                }
            }
            Op::Get { slot, at: pos } => {
                let sl = &slots[*slot as usize % slots.len()];
                let Some(n) = sl.inode else {
                    ensure!(sl.e.try_reader().is_err(), "{at}: a directory can be read");
                    continue;
                };
                let mut f = sl.e.try_reader().map_err(|e| format!("{at}: {e}"))?.borrow_mut();
                let mut got = vec![];
                f.seek(SeekFrom::Start(u64::from(*pos))).and_then(|_| f.read_to_end(&mut got)).map_err(|e| format!("{at}: {e}"))?;
                let c = &m.inodes[n];
                let want = &c[(*pos as usize).min(c.len())..];
                ensure!(got == want, "{at}: read {} bytes instead of {}", got.len(), want.len());
            }
            Op::Flush(slot) => {
                let sl = &slots[*slot as usize % slots.len()];
                let r = s.flush_file(&sl.e);
                ensure!(r.is_ok() == sl.inode.is_some(), "{at}: {:?}", r.err());
            }
            Op::Len(slot) => {
                let sl = &slots[*slot as usize % slots.len()];
                let r = s.file_len(&sl.e);
                match (sl.inode, r) {
                    (None, r) => ensure!(r.is_err(), "{at}: a directory has a length"),
                    (Some(n), Ok(l)) => ensure!(l == m.inodes[n].len(), "{at}: {l} instead of {}", m.inodes[n].len()),
                    (Some(_), Err(e)) => fail!("{at}: {e}"),
                }
            }
            Op::ReadDir(slot) => {
                let sl = &slots[*slot as usize % slots.len()];
                let here = sl.path.strip_prefix(&base).map(norm).unwrap_or_default();
                let r = s.read_dir(&sl.e);
                if sl.inode.is_some() {
                    ensure!(r.is_err(), "{at}: a file was listed");
                    continue;
                }
                if !matches!(m.nodes.get(&here), Some(MNode::Dir)) {
                    continue; // removed in the meantime, or replaced
                }
                let got = r.map_err(|e| format!("{at}: {e}"))?;
                let mut seen = Tree::new();
                for e in got {
                    let p = norm(e.path().strip_prefix(&base).map_err(|_| format!("{at}: lists {:?}", e.path()))?);
                    let c = match e.is_dir() {
                        true => None,
                        false => {
                            let mut b = vec![];
                            e.try_reader().map_err(|e| e.to_string())?.borrow_mut().read_to_end(&mut b).map_err(|e| e.to_string())?;
                            Some(b)
                        }
                    };
                    ensure!(seen.insert(p.clone(), c).is_none(), "{at}: lists {p:?} twice");
                }
                let want: Tree = m.tree().into_iter().filter(|(p, _)| p.starts_with(&here)).collect();
                ensure!(seen == want, "{at}: {}", tree_diff(&seen, &want));
                cov.label("read_dir");
            }
            Op::Remove(slot) => {
                let sl = slots.remove(*slot as usize % slots.len());
                let here = sl.path.strip_prefix(&base).map(norm).unwrap_or_default();
                let linked = sl.temp || matches!((m.nodes.get(&here), sl.inode), (Some(MNode::File(a)), Some(b)) if *a == b);
                let r = s.remove_file(sl.e);
                if sl.inode.is_none() {
                    ensure!(r.is_err() , "{at}: a directory was removed as a file");
                } else if linked && sl.writable {
                    ensure!(r.is_ok(), "{at}: {:?}", r.err());
                    did_remove = true;
                    if let Some(n) = sl.inode {
                        // what other handles of the removed file see is not specified
                        slots.retain(|o| o.inode != Some(n));
                        if sl.temp {
                            ensure!(std::fs::symlink_metadata(&sl.path).is_err(), "{at}: {:?} is still there", sl.path);
                        } else {
                            m.nodes.remove(&here);
                        }
                    }
                } else {
                    // a handle opened for reading, or of a file that is no longer at its path:
                    // adopt what happened, which may only concern this path and this file
                    if std::fs::symlink_metadata(&sl.path).is_err() && !sl.temp {
                        m.nodes.remove(&here);
                    }
                    if let Some(n) = sl.inode {
                        slots.retain(|o| o.inode != Some(n));
                        let still = m.nodes.iter().find(|(_, x)| matches!(x, MNode::File(i) if *i == n)).map(|(p, _)| p.clone());
                        if let Some(p) = still {
                            let b = std::fs::read(base.join(p)).map_err(|e| format!("{at}: {e}"))?;
                            ensure!(b == m.inodes[n] || b.is_empty(), "{at}: content garbled");
                            ensure!(r.is_ok() || sl.writable || b == m.inodes[n], "{at}: refused, but the file was emptied");
                            m.inodes[n] = b;
                        }
                    }
                }
            }
            Op::RemoveDir(slot) => {
                let sl = slots.remove(*slot as usize % slots.len());
                let here = sl.path.strip_prefix(&base).map(norm).unwrap_or_default();
                let r = s.remove_dir_all(sl.e);
                if sl.inode.is_some() {
                    ensure!(r.is_err(), "{at}: a file was removed as a directory");
                    if sl.temp {
                        std::fs::remove_file(&sl.path).ok();
                    }
                } else if matches!(m.nodes.get(&here), Some(MNode::Dir)) {
                    ensure!(r.is_ok(), "{at}: {:?}", r.err());
                    m.nodes.retain(|p, _| !p.starts_with(&here));
                    did_remove = true;
                }
            }
            Op::Drop(slot) => {
                let sl = slots.remove(*slot as usize % slots.len());
                if sl.temp {
                    std::fs::remove_file(&sl.path).ok();
                }
            }
        }
        if let Some(i) = touched {
            let sl = &slots[i];
            ensure!(sl.e.path() == sl.path, "{at}: the entry is called {:?} instead of {:?}", sl.e.path(), sl.path);
            ensure!(sl.e.is_dir() == sl.inode.is_none(), "{at}: is_dir is {}", sl.e.is_dir());
        }
        let (got, want) = (read_tree(&base), m.tree());
        ensure!(got == want, "{at}: {}", tree_diff(&got, &want));
    }
    for t in temps {
        if t.starts_with(std::env::temp_dir()) {
            std::fs::remove_file(&t).ok();
        }
    }
    if did_remove && did_write {
        cov.nontrivial();
    }
    Ok(())
}

/// Somebody got there first: whatever already has the name that a temporary file is about to get
/// is left alone.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Taken {
    seed: u64,
    /// what occupies the name: a file, a link to a file, a link to nothing, a directory
    kind: u8,
    content: Data,
}

fn taken(ctx: &Ctx, c: &Taken, cov: &mut Cov) -> Res {
    let sc = Scratch::new(&ctx.scratch);
    // the same draw of randomness twice, in threads of their own
    fn draw<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
        std::thread::scope(|s| {
            s.spawn(|| {
                getrandom::verif::set(Some(seed));
                let r = f();
                getrandom::verif::set(None);
                r
            })
            .join()
            .unwrap()
        })
    }
    let stor = FileStorage;
    let p = draw(c.seed, || stor.create_temp_file().map(|e| e.path().to_path_buf())).map_err(|e| format!("create_temp_file: {e}"))?;
    std::fs::remove_file(&p).map_err(|e| format!("the temporary file {p:?} is not there: {e}"))?;
    let victim = sc.path().join("victim");
    let b = c.content.bytes();
    match c.kind % 4 {
        0 => std::fs::write(&p, &b).unwrap(),
        1 => {
            std::fs::write(&victim, &b).unwrap();
            std::os::unix::fs::symlink(&victim, &p).unwrap();
        }
        2 => std::os::unix::fs::symlink(&victim, &p).unwrap(),
        _ => std::fs::create_dir(&p).unwrap(),
    }
    let r = draw(c.seed, || stor.create_temp_file().map(|e| e.path().to_path_buf()));
    let meta = std::fs::symlink_metadata(&p);
    let clean = |p: &Path| {
        if p.starts_with(std::env::temp_dir()) {
            let _ = std::fs::remove_file(p);
            let _ = std::fs::remove_dir(p);
        }
    };
    let res = (|| -> Res {
        if let Ok(q) = &r {
            ensure!(*q != p, "a temporary file was opened over what already had its name {p:?} (kind {})", c.kind % 4);
        }
        let Ok(m) = meta else { fail!("what had the name of a temporary file is gone") };
        match c.kind % 4 {
            0 => ensure!(std::fs::read(&p).ok().as_ref() == Some(&b), "creating a temporary file changed the file that had its name"),
            1 => ensure!(m.is_symlink() && std::fs::read(&victim).ok().as_ref() == Some(&b), "creating a temporary file changed the file that its name linked to"),
            2 => ensure!(m.is_symlink() && !victim.exists(), "creating a temporary file made a file through a link"),
            _ => ensure!(m.is_dir(), "creating a temporary file replaced a directory"),
        }
        Ok(())
    })();
    clean(&p);
    if let Ok(q) = &r {
        clean(q);
    }
    cov.nontrivial();
    cov.label(format!("kind{}", c.kind % 4));
    cov.label(if r.is_ok() { "another name" } else { "refused" });
    res
}

/// Temporary files made at the same time from several threads are different files.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Many {
    threads: u8,
    each: u8,
}

fn many(c: &Many, cov: &mut Cov) -> Res {
    let all: Vec<Result<PathBuf, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..c.threads)
            .map(|_| {
                s.spawn(|| {
                    (0..c.each).map(|_| FileStorage.create_temp_file().map(|e| e.path().to_path_buf()).map_err(|e| e.to_string())).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    let mut seen = HashSet::new();
    let mut res = Ok(());
    for p in &all {
        match p {
            Ok(p) if seen.insert(p.clone()) => {}
            Ok(p) => res = Err(Fail::from(format!("two temporary files got the name {p:?}"))),
            Err(e) => res = Err(Fail::from(format!("create_temp_file: {e}"))),
        }
    }
    for p in seen {
        if p.starts_with(std::env::temp_dir()) {
            let _ = std::fs::remove_file(p);
        }
    }
    cov.nontrivial();
    res
}

/// Lengths that do not fit small integers; the files have holes and take no space.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Long {
    len: u64,
    how: u8,
    tail: Vec<u8>,
}

fn long_strategy() -> BoxedStrategy<Long> {
    let near = (prop::sample::select(vec![16u32, 20, 24, 31, 32, 33, 35, 40]), -3i64..4).prop_map(|(k, d)| ((1i64 << k) + d) as u64);
    let free = (1u32..43, any::<u64>()).prop_map(|(k, r)| (1u64 << (k - 1)) + r % (1u64 << (k - 1)));
    (prop_oneof![near, free], 0u8..3, vec(any::<u8>(), 0..20)).prop_map(|(len, how, tail)| Long { len, how, tail }).boxed()
}

fn long_files(ctx: &Ctx, c: &Long, cov: &mut Cov) -> Res {
    use std::io::{Read, Seek, SeekFrom, Write};
    let sc = Scratch::new(&ctx.scratch);
    let p = sc.path().join("long");
    let mut f = std::fs::File::create(&p).unwrap();
    if f.set_len(c.len).is_err() {
        cov.label("not on this file system");
        return Ok(());
    }
    let at = c.len.saturating_sub(c.tail.len() as u64);
    let tail = &c.tail[..(c.len - at) as usize];
    f.seek(SeekFrom::Start(at)).and_then(|_| f.write_all(tail)).unwrap();
    drop(f);
    let s = FileStorage;
    let e = match c.how % 3 {
        0 => s.read_file(&p),
        1 => s.overwrite_file(&p),
        _ => s.write_file(&p),
    }
    .map_err(|e| e.to_string())?;
    let now = std::fs::metadata(&p).unwrap().len();
    let want = if c.how % 3 == 2 { 0 } else { c.len };
    ensure!(now == want, "a file of {} bytes has {now} after opening (how {})", c.len, c.how % 3);
    let l = s.file_len(&e).map_err(|e| e.to_string())?;
    ensure!(l as u64 == want, "the length of {} bytes is given as {l}", want);
    if c.how % 3 == 0 {
        let mut got = vec![];
        let mut r = e.try_reader().map_err(|e| e.to_string())?.borrow_mut();
        r.seek(SeekFrom::Start(at)).and_then(|_| r.read_to_end(&mut got)).map_err(|e| e.to_string())?;
        ensure!(got == tail, "the end of a file of {} bytes reads {got:?}", c.len);
    }
    if c.how % 3 == 1 {
        s.remove_file(e).map_err(|e| e.to_string())?;
        ensure!(!p.exists(), "removed, but still there");
    }
    cov.label(format!("2^{}", 64 - c.len.leading_zeros()));
    cov.nontrivial();
    Ok(())
}

pub fn c21(ctx: &Ctx) {
    ctx.check("long_files", ctx.scale(1500, 20_000), long_strategy, |c, cov| long_files(ctx, c, cov));
    ctx.check(
        "temporary_name_taken",
        ctx.scale(3000, 40_000),
        || {
            (any::<u64>(), 0u8..4, data_of((0usize..60).boxed()))
                .prop_map(|(seed, kind, content)| Taken { seed, kind, content })
                .boxed()
        },
        |c, cov| taken(ctx, c, cov),
    );
    ctx.check("temporary_concurrent", ctx.scale(300, 4_000), || (2u8..6, 1u8..6).prop_map(|(threads, each)| Many { threads, each }).boxed(), many);
    ctx.check("storage", ctx.scale(20_000, 480_000), || vec(op(), 1..40).boxed(), |c, cov| storage_model(ctx, c, cov));
}
