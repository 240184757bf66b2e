//! The command-line tool as a process: C19 what it may destroy, C22 where keys come from, C25 what
//! its options do; and its share of C12, C13, C14 and C16.

use super::arch::*;
use super::crypt::*;
use super::erase::judge_log;
use super::*;
use crate::cli::{find, Cmd, Out, Rec, Shim};
use crate::data::*;
use crate::fw::*;
use crate::io::Ev;
use crate::refc::{self, Alg, Hdr, Kdf, Spec};
use crate::stor::MemStorage;
use crate::{ensure, fail};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

const BALLOON: Kdf = 5;
const ARGON: Kdf = 3;

// ------------------------------------------------------------------ the world of a case

struct World {
    sc: Scratch,
}
impl World {
    fn new(ctx: &Ctx) -> World {
        let sc = Scratch::new(&ctx.scratch);
        std::fs::create_dir(sc.path().join("w")).expect("w");
        std::fs::create_dir(sc.path().join("tmp")).expect("tmp");
        World { sc }
    }
    fn root(&self) -> &Path {
        self.sc.path()
    }
    fn w(&self, p: impl AsRef<Path>) -> PathBuf {
        self.sc.path().join("w").join(p)
    }
    fn put(&self, p: &str, b: &[u8]) {
        let p = self.w(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, b).unwrap();
    }
    fn get(&self, p: impl AsRef<Path>) -> Option<Vec<u8>> {
        std::fs::read(self.w(p)).ok()
    }
    fn exists(&self, p: impl AsRef<Path>) -> bool {
        std::fs::symlink_metadata(self.w(p)).is_ok()
    }
    fn tree(&self) -> Tree {
        read_tree(&self.w(""))
    }
    fn temps(&self) -> Tree {
        read_tree(&self.sc.path().join("tmp"))
    }
    fn cmd(&self, args: &[String]) -> Cmd {
        let a: Vec<&str> = args.iter().map(String::as_str).collect();
        Cmd::new(self.root(), &a)
    }
}

fn unused_case_label(cov: &mut Cov, out: &Out) {
    cov.label(match (out.code, out.signal) {
        (Some(0), _) => "exit_0",
        (Some(_), _) => "exit_nonzero",
        _ => "killed",
    });
}

/// Opens what the tool wrote with the reference implementation.
fn open_with(key: &[u8], header: Option<&[u8]>, file: &[u8]) -> Option<(Hdr, Vec<u8>)> {
    let h = Hdr::parse(header.unwrap_or(file))?;
    let (mk, _) = h.unlock(key)?;
    let body = match header {
        Some(_) => file,
        None => file.get(refc::header_len(h.version)..)?,
    };
    let pt = h.body_open(&mk, body)?;
    Some((h, pt))
}

fn hex64(s: &str) -> Vec<String> {
    s.split(|c: char| !c.is_ascii_hexdigit()).filter(|w| w.len() == 64).map(str::to_string).collect()
}

// ------------------------------------------------------------------ C22

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Src {
    File,
    Stdin,
    Env,
    Tty,
    /// a key file that is a pipe, of which nobody knows the length
    Pipe,
    /// a key file that is a link to the real one
    Link,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    key: Vec<u8>,
    /// letters that follow
    #[serde(default)]
    more: u32,
    src: Src,
    dsrc: Src,
    /// set the sources that come after the one in use as well
    decoys: bool,
    /// pairs typed before the good one
    typos: Vec<(String, String)>,
    /// pairs that are almost the good one
    #[serde(default)]
    slips: Vec<u8>,
    near: Option<(u8, u64)>,
    pack: bool,
    argon: bool,
}

fn src() -> BoxedStrategy<Src> {
    prop::sample::select(vec![Src::File, Src::File, Src::Stdin, Src::Stdin, Src::Env, Src::Env, Src::Tty, Src::Tty, Src::Pipe, Src::Link]).boxed()
}

fn typable(k: &[u8]) -> bool {
    std::str::from_utf8(k).is_ok_and(|s| !s.is_empty() && s.len() < 200 && !s.chars().any(char::is_control))
}
fn possible(s: &Src, k: &[u8]) -> bool {
    match s {
        Src::File | Src::Stdin | Src::Pipe | Src::Link => true,
        Src::Tty => typable(k),
        // one string of the environment holds no more than 128 KiB
        Src::Env => std::str::from_utf8(k).is_ok_and(|s| !s.is_empty() && s.len() < 120_000 && !s.contains('\0')),
    }
}

fn whole(key: &[u8], more: u32) -> Vec<u8> {
    let mut k = key.to_vec();
    k.extend(prand(u64::from(more), more as usize).iter().map(|b| b'a' + b % 26));
    k
}

fn key_strategy() -> BoxedStrategy<KeyCase> {
    let text = || prop_oneof![3 => "[ -~]{1,30}", 1 => "[\\p{L}\\p{N}\\p{So} ]{1,12}", 1 => "[ ]{1,3}[a-z]{0,3}[ ]{0,2}"];
    let key = prop_oneof![
        3 => text().prop_map(String::into_bytes),
        1 => password().prop_filter("nonempty", |p| !p.is_empty()),
        1 => (text(), prop::sample::select(vec!["\n", "\r\n", "\n\n", "\0", "\t"])).prop_map(|(t, e)| format!("{t}{e}").into_bytes()),
        // as if they meant something
        1 => (prop::sample::select(vec!["\u{feff}", "#", "0x", "-", "--", "~/", "$HOME", "file:", "\"", "'", "@", "base64:", "\\n", "%20", "\n", "\u{a0}", "key="]), text(), prop::sample::select(vec!["", "\"", "'", "==", "#", "\\", "\u{200b}", "\u{85}"]))
            .prop_map(|(a, t, e)| format!("{a}{t}{e}").into_bytes()),
        1 => "([0-9a-f]{32}|[0-9a-f]{64}|[0-9]{1,12}|e\u{301}|\u{e9}|\u{212b})".prop_map(String::into_bytes),
    ];
    let more = prop_oneof![
        14 => Just(0u32),
        1 => (prop::sample::select(vec![256u32, 1024, 4096, 8192, 65_536, 131_072]), 0u32..33).prop_map(|(k, d)| k - d),
        1 => 200u32..300_000,
        1 => (prop::sample::select(vec![524_288u32, 1 << 20, 1 << 21]), 0u32..40).prop_map(|(k, d)| k + 7 - d),
    ];
    ((key, more), src(), src(), any::<bool>(), vec((prop_oneof![2 => text(), 1 => Just(String::new())], prop_oneof![2 => text(), 1 => Just(String::new())]), 0..3), vec(0u8..8, 0..3), prop::option::weighted(0.4, (any::<u8>(), any::<u64>())), any::<bool>(), any::<bool>())
        .prop_map(|((key, more), mut src, mut dsrc, decoys, typos, slips, near, pack, argon)| {
            let k = whole(&key, more);
            for s in [&mut src, &mut dsrc] {
                if !possible(s, &k) {
                    *s = if *s == Src::Env { Src::File } else { Src::Stdin };
                }
            }
            KeyCase { key, more, src, dsrc, decoys, typos, slips, near, pack, argon }
        })
        .boxed()
}

/// A first and a second entry of a password that differ a little.
fn slip(t: &str, how: u8) -> (String, String) {
    let cut = |t: &str| t.chars().take(t.chars().count().saturating_sub(1)).collect::<String>();
    let swap = |t: &str| t.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect::<String>();
    match how {
        0 => (swap(t), t.into()),
        1 => (t.into(), format!("{t} ")),
        2 => (format!(" {t}"), t.into()),
        3 => (cut(t), t.into()),
        4 => (t.into(), cut(t)),
        5 => (format!("{t}x"), t.into()),
        6 => (t.chars().rev().collect(), t.into()),
        _ => (String::new(), t.into()),
    }
}

/// Adds a key from a source to a command; `confirm`: prompts ask twice.
fn with_key(w: &World, cmd: &mut Cmd, src: &Src, key: &[u8], decoys: bool, confirm: Option<&[(String, String)]>) {
    let text = String::from_utf8_lossy(key).into_owned();
    match src {
        Src::File => {
            w.put("keys/the key", key);
            cmd.args.extend(["--keyfile".into(), "keys/the key".into()]);
        }
        Src::Stdin => {
            cmd.stdin = key.to_vec();
            cmd.args.extend(["-k".into(), "-".into()]);
        }
        Src::Pipe => {
            cmd.stdin = key.to_vec();
            cmd.args.extend(["-k".into(), "/dev/stdin".into()]);
        }
        Src::Link => {
            w.put("keys/real", key);
            let _ = std::os::unix::fs::symlink("real", w.w("keys/ln"));
            cmd.args.extend(["-k".into(), "keys/ln".into()]);
        }
        Src::Env => cmd.env_key = Some(key.to_vec()),
        Src::Tty => {
            let mut t = vec![];
            if let Some(typos) = confirm {
                for (a, b) in typos {
                    if a != b {
                        t.extend([a.clone(), b.clone()]);
                    }
                }
                t.extend([text.clone(), text.clone()]);
            } else {
                t.push(text);
            }
            cmd.tty = Some(t);
        }
    }
    if decoys {
        if matches!(src, Src::File | Src::Stdin | Src::Pipe | Src::Link) {
            cmd.env_key = Some(b"another key entirely".to_vec());
        }
        if matches!(src, Src::Env) && confirm.is_some() {
            cmd.args.push("--auto".into());
        }
        if *src != Src::Tty {
            cmd.tty = Some(vec!["typed instead".into(), "typed instead".into()]);
        }
    }
}

fn key_case(ctx: &Ctx, c: &KeyCase, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let the_key = whole(&c.key, c.more);
    let pt = prand(h64(&the_key), 300);
    let (verb, unverb) = if c.pack { ("pack", "unpack") } else { ("encrypt", "decrypt") };
    w.put(if c.pack { "in/f" } else { "in" }, &pt);
    let mut e = w.cmd(&[verb.into(), "in".into(), "out".into()]);
    if c.argon {
        e.args.push("--argon".into());
    }
    let text = String::from_utf8_lossy(&the_key);
    let mut typos = c.typos.clone();
    typos.extend(c.slips.iter().map(|s| slip(&text, *s)));
    with_key(&w, &mut e, &c.src, &the_key, c.decoys, Some(&typos));
    let o = e.run()?;
    ensure!(o.ok(), "{verb} with a key from {:?}: {}", c.src, o.brief());
    let file = w.get("out").ok_or_else(|| format!("{verb} left no output"))?;
    let Some((_, got)) = open_with(&the_key, None, &file) else {
        fail!("{verb}: the output does not open with the key given by {:?}", c.src);
    };
    ensure!(c.pack || got == pt, "{verb}: the output holds something else");

    // and the other way
    let key = match c.near {
        Some((how, seed)) => near_miss(&the_key, how, seed),
        None => the_key.clone(),
    };
    let ok = c.near.is_none();
    let mut dsrc = c.dsrc.clone();
    if !possible(&dsrc, &key) {
        dsrc = Src::File;
    }
    let mut d = w.cmd(&[unverb.into(), "out".into(), "back".into()]);
    with_key(&w, &mut d, &dsrc, &key, c.decoys, None);
    let o = d.run()?;
    let back = w.get(if c.pack { "back/in/f" } else { "back" });
    if ok {
        ensure!(o.ok(), "{unverb} with the same key from {dsrc:?}: {}", o.brief());
        ensure!(back.as_ref() == Some(&pt), "{unverb} gave something else");
    } else {
        ensure!(!o.ok() && o.code.is_some(), "{unverb} with another key from {dsrc:?}: {}", o.brief());
        ensure!(back.unwrap_or_default().is_empty(), "{unverb} with another key wrote content");
    }
    ensure!(w.get("out").as_ref() == Some(&file), "{unverb} changed its input");
    ensure!(w.temps().is_empty(), "temporary files left: {:?}", w.temps().keys());
    cov.evals(1);
    if the_key.len() > 200 {
        cov.label("long key");
    }
    cov.label(format!("{verb}_{:?}", c.src));
    cov.label(format!("{unverb}_{dsrc:?}{}", if ok { "" } else { "_wrong" }));
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoKey {
    verb: u8,
    src: Src,
    existing: bool,
    /// the keyfile does not exist, instead of being empty
    missing: bool,
}

/// Without a key nothing happens.
fn no_key(ctx: &Ctx, c: &NoKey, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let verb = ["encrypt", "pack", "decrypt", "unpack"][c.verb as usize % 4];
    let spec = Spec { version: 5, alg: Alg::XChaCha, memory: false, slots: vec![(BALLOON, vec![])], seed: 1 };
    match verb {
        "pack" => w.put("in/f", b"content"),
        "encrypt" => w.put("in", b"content"),
        // encrypted with an empty key: even that is not taken
        _ => w.put("in", &spec.build(b"content").file()),
    }
    if c.existing && verb != "unpack" {
        w.put("out", b"something older");
    }
    let mut cmd = w.cmd(&[verb.into(), "in".into(), "out".into(), "-f".into()]);
    let confirm = matches!(verb, "encrypt" | "pack");
    if c.missing && c.src == Src::File {
        cmd.args.extend(["-k".into(), "no such file".into()]);
    } else if c.src == Src::Tty {
        // encrypting asks until it gets one; the terminal hangs up in the end
        cmd.tty = Some(if confirm { vec![] } else { vec![String::new()] });
    } else {
        with_key(&w, &mut cmd, &c.src, b"", false, None);
    }
    let before = w.tree();
    let o = cmd.run()?;
    ensure!(!o.ok() && o.code.is_some(), "{verb} with an empty key from {:?}: {}", c.src, o.brief());
    let after = w.tree();
    ensure!(before == after, "{verb} with an empty key changed something: {}", tree_diff(&after, &before));
    ensure!(w.temps().is_empty(), "temporary files left");
    cov.label(format!("{verb}_{:?}", c.src));
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Auto {
    words: Option<i32>,
    pack: bool,
    wordy: Option<String>,
}

fn auto_key(ctx: &Ctx, c: &Auto, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    w.put(if c.pack { "in/f" } else { "in" }, b"some content");
    let verb = if c.pack { "pack" } else { "encrypt" };
    let flag = match (&c.wordy, c.words) {
        (Some(t), _) => format!("--auto={t}"),
        (_, Some(n)) => format!("--auto={n}"),
        _ => "--auto".into(),
    };
    let n = if c.wordy.is_some() { 7 } else { c.words.unwrap_or(7) };
    let o = w.cmd(&[verb.into(), flag.clone(), "in".into(), "out".into()]).run()?;
    if n <= 0 {
        ensure!(!o.ok(), "{verb} {flag} succeeded");
        ensure!(!w.exists("out"), "{verb} {flag} left an output");
        return Ok(());
    }
    ensure!(o.ok(), "{verb} {flag}: {}", o.brief());
    let all = format!("{}\n{}", o.stdout, o.stderr);
    let Some(phrase) = all.lines().find_map(|l| l.split_once("passphrase is: ").map(|x| x.1.trim_end())) else {
        fail!("{verb} {flag} shows no passphrase: {}", o.brief());
    };
    ensure!(phrase.split('-').count() == n as usize && phrase.split('-').all(|x| !x.is_empty()), "{flag} gave {phrase:?}");
    let file = w.get("out").unwrap_or_default();
    ensure!(open_with(phrase.as_bytes(), None, &file).is_some(), "the output does not open with the passphrase shown");
    // typed in by hand
    let mut d = w.cmd(&[if c.pack { "unpack" } else { "decrypt" }.into(), "out".into(), "back".into()]);
    if phrase.len() < 3000 {
        d.tty = Some(vec![phrase.to_string()]);
    } else {
        // more than a terminal takes as one line
        d.env_key = Some(phrase.as_bytes().to_vec());
    }
    let o = d.run()?;
    ensure!(o.ok(), "decrypting with the passphrase shown: {}", o.brief());
    cov.label(if c.pack { "pack" } else { "encrypt" });
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EnvBytes {
    verb: u8,
    key: Vec<u8>,
    auto: bool,
    typed: bool,
}

/// A key in the environment that is no text is refused, or taken as it is; nothing else is taken instead.
fn env_bytes(ctx: &Ctx, c: &EnvBytes, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let verb = ["encrypt", "pack", "decrypt", "unpack"][c.verb as usize % 4];
    let spec = Spec { version: 5, alg: Alg::XChaCha, memory: false, slots: vec![(BALLOON, b"typed instead".to_vec())], seed: 1 };
    match verb {
        "pack" => w.put("in/f", b"content"),
        "encrypt" => w.put("in", b"content"),
        _ => w.put("in", &spec.build(b"content").file()),
    }
    let mut cmd = w.cmd(&[verb.into(), "in".into(), "out".into()]);
    cmd.env_key = Some(c.key.clone());
    let enc = c.verb % 4 < 2;
    if c.auto && enc {
        cmd.args.push("--auto".into());
    }
    if c.typed {
        cmd.tty = Some(vec!["typed instead".into(), "typed instead".into()]);
    }
    let before = w.tree();
    let o = cmd.run()?;
    ensure!(o.code.is_some() && o.code != Some(101), "{verb} with {:?} in the environment: {}", c.key, o.brief());
    if o.ok() {
        ensure!(enc, "{verb} with {:?} in the environment succeeded with another key", c.key);
        let file = w.get("out").unwrap_or_default();
        ensure!(open_with(&c.key, None, &file).is_some(), "{verb} with {:?} in the environment took another key", c.key);
    } else if enc {
        let after = w.tree();
        ensure!(before == after, "{verb}: refused, but changed something: {}", tree_diff(&after, &before));
    }
    cov.label(if o.ok() { "taken" } else { "refused" });
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadRead {
    verb: u8,
    key: Data,
    at: u64,
    errno: i32,
    /// bytes per read
    short: Option<usize>,
}

/// The key file cannot be read to its end: what could be read is not the key.
fn bad_read(ctx: &Ctx, c: &BadRead, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let (verb, file) = if c.verb == 0 { ("encrypt", "in") } else { ("pack", "in/f") };
    let key = [b"k", &c.key.bytes()[..]].concat();
    w.put(file, b"content");
    w.put("the key", &key);
    let before = w.tree();
    let mut cmd = w.cmd(&[verb.into(), "in".into(), "out".into(), "-f".into(), "-k".into(), "the key".into()]);
    cmd.shim = Some(Shim { rfail_at: Some(c.at), errno: c.errno, short: c.short.unwrap_or(0), ..Shim::default() });
    let o = cmd.run()?;
    let hit = o.log.iter().any(|r| r.t == b'X');
    let shown = format!("{verb} with a key file of {} bytes, read {} failing ({hit})", key.len(), c.at);
    ensure!(o.code.is_some() && o.code != Some(101), "{shown}: {}", o.brief());
    if o.ok() {
        ensure!(open_with(&key, None, &w.get("out").unwrap_or_default()).is_some(), "{shown}: the output does not open with the key");
    } else {
        ensure!(hit, "{shown}: {}", o.brief());
        ensure!(w.tree().iter().all(|(p, x)| p == Path::new("out") || before.get(p) == Some(x)), "{shown}: changed something else");
    }
    cov.label(if hit { "read_failed" } else { "read_whole" });
    if hit {
        cov.nontrivial();
    }
    Ok(())
}

pub fn c22(ctx: &Ctx) {
    ctx.check(
        "bad_read",
        ctx.scale(200, 3000),
        || {
            let len = prop_oneof![1 => 0usize..40, 1 => 40usize..9000, 1 => 9000usize..200_000];
            (0u8..2, data_of(len.boxed()), 0u64..7, prop::sample::select(vec![libc::EIO, libc::EISDIR, libc::ESTALE]), prop::option::weighted(0.8, 1usize..20_000))
                .prop_map(|(verb, key, at, errno, short)| BadRead { verb, key, at, errno, short })
                .boxed()
        },
        |c, cov| bad_read(ctx, c, cov),
    );
    ctx.check(
        "env_bytes",
        ctx.scale(250, 3000),
        || {
            let bad = prop::sample::select(vec![&b"\xff"[..], b"\xc3", b"\x80", b"\xed\xa0\x80", b"\xfe\xff"]);
            (0u8..4, vec(1u8..=255, 0..12), bad, vec(1u8..128, 0..12), any::<bool>(), any::<bool>())
                .prop_map(|(verb, mut key, bad, end, auto, typed)| {
                    key.extend(bad);
                    key.extend(end);
                    if std::str::from_utf8(&key).is_ok() {
                        key.push(0xff);
                    }
                    EnvBytes { verb, key, auto, typed }
                })
                .boxed()
        },
        |c, cov| env_bytes(ctx, c, cov),
    );
    ctx.check("sources", ctx.scale(2500, 30_000), key_strategy, |c, cov| key_case(ctx, c, cov));
    ctx.check(
        "empty",
        ctx.scale(200, 1000),
        || {
            (0u8..4, src(), any::<bool>(), any::<bool>())
                .prop_map(|(verb, src, existing, missing)| NoKey { verb, src, existing, missing })
                .boxed()
        },
        |c, cov| no_key(ctx, c, cov),
    );
    ctx.check(
        "auto",
        ctx.scale(250, 3000),
        || {
            (prop::option::of(prop_oneof![12 => 1i32..15, 1 => 15i32..400, 1 => 254i32..260, 2 => -2i32..1]), any::<bool>(), prop::option::weighted(0.1, "[a-z]{1,4}"))
                .prop_map(|(words, pack, wordy)| Auto { words, pack, wordy })
                .boxed()
        },
        |c, cov| auto_key(ctx, c, cov),
    );
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Serialize, Deserialize)]
struct E2e {
    data: Data,
    aes: bool,
    argon: bool,
    header: bool,
    hash: (bool, bool),
    erase: (Option<Option<u16>>, Option<Option<u16>>),
    force: (bool, bool),
    existing: (bool, bool),
    short_names: bool,
    /// options before the file names
    first: bool,
    key: String,
    short_io: Option<usize>,
}

fn e2e_strategy() -> BoxedStrategy<E2e> {
    let er = || prop_oneof![2 => Just(None), 1 => Just(Some(None)), 1 => (1u16..4).prop_map(|n| Some(Some(n)))];
    (
        data_of(prop_oneof![8 => small_len(), 2 => len_strategy(2)].boxed()),
        (any::<bool>(), any::<bool>(), any::<bool>()),
        any::<(bool, bool)>(),
        (er(), er()),
        any::<(bool, bool)>(),
        any::<(bool, bool)>(),
        any::<(bool, bool)>(),
        "[a-zA-Z0-9 ]{1,12}",
        prop::option::weighted(0.15, prop::sample::select(vec![1000usize, 4096, 70_000])),
    )
        .prop_map(|(data, (aes, argon, header), hash, erase, force, existing, (short_names, first), key, short_io)| E2e {
            data,
            aes,
            argon,
            header,
            hash,
            erase,
            force,
            existing,
            short_names,
            first,
            key,
            short_io,
        })
        .boxed()
}

fn order(first: bool, verb: &str, opts: Vec<String>, names: Vec<String>) -> Vec<String> {
    let mut v = vec![verb.to_string()];
    if first {
        v.extend(opts);
        v.extend(names);
    } else {
        v.extend(names);
        v.extend(opts);
    }
    v
}

fn erase_flag(e: &Option<Option<u16>>) -> Option<String> {
    e.as_ref().map(|n| match n {
        None => "--erase".into(),
        Some(n) => format!("--erase={n}"),
    })
}

fn says_hash(o: &Out, path: &str, content: &[u8], want: bool) -> Result<(), String> {
    let h = blake3::hash(content).to_hex().to_string();
    let found = hex64(&o.stdout);
    if want {
        if found != [h.clone()] {
            return Err(format!("the hash of {path} is {h}, shown: {found:?}"));
        }
        if !o.stdout.lines().any(|l| l.contains(path) && l.contains(&h)) {
            return Err(format!("the hash is not shown next to {path}"));
        }
    } else if !found.is_empty() {
        return Err(format!("a hash is shown: {found:?}"));
    }
    Ok(())
}

fn e2e(ctx: &Ctx, c: &E2e, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let pt = c.data.bytes();
    w.put("the input", &pt);
    w.put("bystander", b"not involved");
    if c.existing.0 {
        w.put("out.enc", &prand(5, pt.len() + 3000));
        if c.header {
            w.put("head", &prand(6, 700));
        }
    }
    let mut opts: Vec<String> = vec![];
    if c.aes {
        opts.push("--aes".into());
    }
    if c.argon {
        opts.push("--argon".into());
    }
    if c.header {
        opts.extend(["--header".into(), "head".into()]);
    }
    if c.hash.0 {
        opts.push(if c.short_names { "-H" } else { "--hash" }.into());
    }
    if c.force.0 {
        opts.push(if c.short_names { "-f" } else { "--force" }.into());
    }
    opts.extend(erase_flag(&c.erase.0));
    let verb = if c.short_names { "-e" } else { "encrypt" };
    let mut cmd = w.cmd(&order(c.first, verb, opts, vec!["the input".into(), "out.enc".into()]));
    cmd.env_key = Some(c.key.clone().into_bytes());
    cmd.stdin = b"y\n\n".to_vec();
    if let Some(n) = c.short_io {
        cmd.shim = Some(Shim { short: n, ..Shim::default() });
    }
    let o = cmd.run()?;
    ensure!(o.ok(), "encrypting: {}", o.brief());
    let file = w.get("out.enc").unwrap_or_default();
    let header = c.header.then(|| w.get("head").unwrap_or_default());
    let Some((h, got)) = open_with(c.key.as_bytes(), header.as_deref(), &file) else {
        fail!("the output is not a valid encryption of anything with this key");
    };
    if let Some(d) = diff(&got, &pt) {
        fail!("the output holds {} bytes for {}, differing at {d}", got.len(), pt.len());
    }
    ensure!(h.version == 5 && !h.memory, "header version {} memory mode {}", h.version, h.memory);
    ensure!(h.alg == if c.aes { Alg::Aes } else { Alg::XChaCha }, "encrypted with {:?}", h.alg);
    let kdf = if c.argon { ARGON } else { BALLOON };
    ensure!(h.slots.len() == 1 && h.slots[0].kdf == kdf, "keyslots hashed with {:?}", h.slots.iter().map(|s| s.kdf).collect::<Vec<_>>());
    ensure!(header.as_ref().map_or(true, |h| h.len() == refc::header_len(5)), "the header file has another length");
    says_hash(&o, "out.enc", &file, c.hash.0).map_err(|e| format!("encrypt: {e}"))?;
    match c.erase.0 {
        None => ensure!(w.get("the input").as_ref() == Some(&pt), "the input was changed"),
        Some(_) => ensure!(!w.exists("the input"), "the input is still there"),
    }

    // back
    if c.existing.1 {
        w.put("back", &prand(7, pt.len() + 1234));
    }
    let mut opts: Vec<String> = vec![];
    if c.header {
        opts.extend(["--header".into(), "head".into()]);
    }
    if c.hash.1 {
        opts.push(if c.short_names { "-H" } else { "--hash" }.into());
    }
    if c.force.1 {
        opts.push(if c.short_names { "-f" } else { "--force" }.into());
    }
    opts.extend(erase_flag(&c.erase.1));
    let verb = if c.short_names { "-d" } else { "decrypt" };
    let mut cmd = w.cmd(&order(c.first, verb, opts, vec!["out.enc".into(), "back".into()]));
    cmd.env_key = Some(c.key.clone().into_bytes());
    cmd.stdin = b"Y\n".to_vec();
    if let Some(n) = c.short_io {
        cmd.shim = Some(Shim { short: n, ..Shim::default() });
    }
    let o = cmd.run()?;
    ensure!(o.ok(), "decrypting: {}", o.brief());
    let back = w.get("back").unwrap_or_default();
    if let Some(d) = diff(&back, &pt) {
        fail!("decryption gave {} bytes for {}, differing at {d}", back.len(), pt.len());
    }
    says_hash(&o, "out.enc", &file, c.hash.1).map_err(|e| format!("decrypt: {e}"))?;
    match c.erase.1 {
        None => ensure!(w.get("out.enc").as_ref() == Some(&file), "the encrypted file was changed"),
        Some(_) => ensure!(!w.exists("out.enc"), "the encrypted file is still there"),
    }
    ensure!(w.get("head") == header, "the header file was changed");
    ensure!(w.get("bystander").as_deref() == Some(b"not involved"), "another file was changed");
    ensure!(w.temps().is_empty(), "temporary files left");
    let mut left: BTreeSet<&str> = ["bystander", "back"].into();
    if c.erase.0.is_none() {
        left.insert("the input");
    }
    if c.erase.1.is_none() {
        left.insert("out.enc");
    }
    if c.header {
        left.insert("head");
    }
    let have: BTreeSet<String> = w.tree().keys().map(|k| k.display().to_string()).collect();
    ensure!(have.iter().map(String::as_str).eq(left.iter().copied()), "files left: {have:?}");
    cov.evals(1);
    cov.label(format!("{}{}{}", if c.aes { "aes" } else { "xchacha" }, if c.argon { "_argon" } else { "_balloon" }, if c.header { "_detached" } else { "" }));
    if !pt.is_empty() {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PackE2e {
    tree: TreeSpec,
    second: Option<TreeSpec>,
    aes: bool,
    argon: bool,
    zstd: bool,
    header: bool,
    hash: (bool, bool),
    erase: (bool, Option<Option<u16>>),
    force: (bool, bool),
    verbose: bool,
    recursive: bool,
    existing: bool,
    root: String,
    first: bool,
    key: String,
    short_io: Option<usize>,
    /// permissions of the files (see `set_modes`)
    #[serde(default)]
    modes: u32,
    /// a link to a file elsewhere is in the directory
    #[serde(default)]
    link: bool,
}

fn pack_e2e_strategy() -> BoxedStrategy<PackE2e> {
    let er = || prop_oneof![2 => Just(None), 1 => Just(Some(None)), 1 => (1u16..4).prop_map(|n| Some(Some(n)))];
    (
        (tree(8, true), prop::option::weighted(0.3, tree(3, false))),
        (any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()),
        any::<(bool, bool)>(),
        (any::<bool>(), er()),
        any::<(bool, bool)>(),
        any::<(bool, bool, bool)>(),
        (prop::sample::select(vec!["src", "src", "./src", "src/", "a/b c", "d/x/../y/src", "ABS", "LN", "LN/src"]), any::<bool>(), prop_oneof![1 => Just(0u32), 1 => any::<u32>()], prop::bool::weighted(0.2)),
        "[a-zA-Z0-9 ]{1,12}",
        prop::option::weighted(0.15, prop::sample::select(vec![1000usize, 4096, 70_000])),
    )
        .prop_map(|((tree, second), (aes, argon, zstd, header), hash, erase, force, (verbose, recursive, existing), (root, first, modes, link), key, short_io)| PackE2e {
            modes,
            link,
            tree,
            second,
            aes,
            argon,
            zstd,
            header,
            hash,
            erase,
            force,
            verbose,
            recursive,
            existing,
            root: root.into(),
            first,
            key,
            short_io,
        })
        .boxed()
}

fn pack_e2e(ctx: &Ctx, c: &PackE2e, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let (t, t2) = (c.tree.build(), c.second.as_ref().map(TreeSpec::build));
    let arg = if c.root == "ABS" { w.w("abs dir").to_str().unwrap().to_string() } else { c.root.replace("LN", "linked") };
    if c.root.starts_with("LN") {
        std::fs::create_dir_all(w.w("behind")).unwrap();
        std::os::unix::fs::symlink("behind", w.w("linked")).unwrap();
        cov.label("linked_root");
    }
    // what becomes of a link that is to be erased itself is not judged here
    let c = &PackE2e { erase: (c.erase.0 && c.root != "LN", c.erase.1.clone()), ..c.clone() };
    let src = w.w(&arg);
    real_tree(&src, &t);
    if c.link {
        std::os::unix::fs::symlink(w.w("bystander"), src.join("a link out")).unwrap();
    }
    let mut names = vec![arg.clone()];
    let mut roots = vec![(norm_root(Path::new(&arg)), &t)];
    if let Some(t2) = &t2 {
        real_tree(&w.w("second"), t2);
        names.push("second".into());
        roots.push(("second".into(), t2));
    }
    set_modes(&src, &t, c.modes, !c.erase.0);
    w.put("bystander", b"not involved");
    if c.existing {
        w.put("out", &prand(3, 30_000));
    }
    let mut opts: Vec<String> = vec!["-k".into(), "../key".into()];
    std::fs::write(w.root().join("key"), &c.key).unwrap();
    for (on, f) in [(c.aes, "--aes"), (c.argon, "--argon"), (c.zstd, "-z"), (c.hash.0, "-H"), (c.force.0, "-f"), (c.verbose, "-v"), (c.recursive, "-r"), (c.erase.0, "--erase")] {
        if on {
            opts.push(f.into());
        }
    }
    if c.header {
        opts.extend(["--header".into(), "head".into()]);
    }
    names.push("out".into());
    // the answers: overwrite the output, erase the directories
    let mut cmd = w.cmd(&order(c.first, "pack", opts, names));
    cmd.stdin = b"y\ny\ny\n".to_vec();
    if let Some(n) = c.short_io {
        cmd.shim = Some(Shim { short: n, ..Shim::default() });
    }
    let o = cmd.run()?;
    ensure!(o.ok(), "packing: {}", o.brief());
    let file = w.get("out").unwrap_or_default();
    let header = c.header.then(|| w.get("head").unwrap_or_default());
    let Some((h, zip)) = open_with(c.key.as_bytes(), header.as_deref(), &file) else {
        fail!("the output is not a valid encryption of anything with this key");
    };
    ensure!(h.version == 5 && h.alg == if c.aes { Alg::Aes } else { Alg::XChaCha }, "encrypted with {:?}", h.alg);
    ensure!(h.slots.len() == 1 && h.slots[0].kdf == if c.argon { ARGON } else { BALLOON }, "keyslots: {:?}", h.slots.iter().map(|s| s.kdf).collect::<Vec<_>>());
    says_hash(&o, "out", &file, c.hash.0).map_err(|e| format!("pack: {e}"))?;
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(&zip)).map_err(|e| format!("the archive does not parse: {e}"))?;
    let want = if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
    for i in 0..z.len() {
        let f = z.by_index(i).map_err(|e| format!("entry {i}: {e}"))?;
        ensure!(!f.is_file() || f.compression() == want, "{} is {:?}", f.name(), f.compression());
    }
    if c.erase.0 {
        ensure!(!w.exists(&arg) && (t2.is_none() || !w.exists("second")), "the source is still there");
    } else {
        let mut left = read_tree(&src);
        ensure!(!c.link || left.remove(Path::new("a link out")).is_some(), "packing removed a link");
        ensure!(left == t, "packing changed the source");
    }
    ensure!(w.temps().is_empty(), "pack left temporary files");

    let mut opts: Vec<String> = vec![];
    for (on, f) in [(c.hash.1, "-H"), (c.force.1, "-f"), (c.verbose, "-v")] {
        if on {
            opts.push(f.into());
        }
    }
    if c.header {
        opts.extend(["--header".into(), "head".into()]);
    }
    opts.extend(erase_flag(&c.erase.1));
    let mut cmd = w.cmd(&order(c.first, "unpack", opts, vec!["out".into(), "dest/dir".into()]));
    cmd.env_key = Some(c.key.clone().into_bytes());
    if let Some(n) = c.short_io {
        cmd.shim = Some(Shim { short: n, ..Shim::default() });
    }
    let o = cmd.run()?;
    ensure!(o.ok(), "unpacking: {}", o.brief());
    let mut want = expected(Path::new(""), &roots);
    if c.link {
        // what it leads to was in the directory as much as anything else
        want.insert(roots[0].0.join("a link out"), Some(b"not involved".to_vec()));
    }
    let got = read_tree(&w.w("dest/dir"));
    ensure!(got == want, "unpacked: {}", tree_diff(&got, &want));
    says_hash(&o, "out", &file, c.hash.1).map_err(|e| format!("unpack: {e}"))?;
    match c.erase.1 {
        None => ensure!(w.get("out").as_ref() == Some(&file), "unpack changed the archive"),
        Some(_) => ensure!(!w.exists("out"), "the archive is still there"),
    }
    ensure!(w.get("head") == header, "the header file was changed");
    ensure!(w.get("bystander").as_deref() == Some(b"not involved"), "another file was changed");
    ensure!(w.temps().is_empty(), "unpack left temporary files");
    cov.evals(1);
    cov.label(format!("{}{}{}", if c.zstd { "zstd" } else { "stored" }, if c.erase.0 { "_erase" } else { "" }, if c.header { "_detached" } else { "" }));
    if t.len() >= 2 {
        cov.nontrivial();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct HashE2e {
    files: Vec<(String, Data)>,
    missing: Option<u8>,
    /// files named once more, right after the others
    #[serde(default)]
    again: Vec<u8>,
    /// this read fails
    #[serde(default)]
    rfail: Option<u64>,
}

fn hash_e2e(ctx: &Ctx, c: &HashE2e, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let mut args = vec!["hash".to_string()];
    let mut want = vec![];
    for (k, (n, d)) in c.files.iter().enumerate() {
        let name = format!("{k} {n}");
        w.put(&name, &d.bytes());
        if c.missing.map_or(false, |m| m as usize % c.files.len() == k) {
            std::fs::remove_file(w.w(&name)).unwrap();
        }
        want.push((name.clone(), blake3::hash(&d.bytes()).to_hex().to_string()));
        args.push(name);
    }
    for k in &c.again {
        let x = want[*k as usize % c.files.len()].clone();
        args.push(x.0.clone());
        want.push(x);
    }
    let before = w.tree();
    let mut cmd = w.cmd(&args);
    if let Some(k) = c.rfail {
        cmd.shim = Some(Shim { rfail_at: Some(k), errno: libc::EIO, ..Shim::default() });
    }
    let o = cmd.run()?;
    if o.log.iter().any(|r| r.t == b'X') {
        cov.label("read_failed");
        ensure!(!o.ok() && o.code.is_some(), "hashing a file that cannot be read: {}", o.brief());
        ensure!(hex64(&o.stdout).iter().all(|h| want.iter().any(|x| x.1 == *h)), "hashing a file that cannot be read shows {:?} instead of {want:?}", hex64(&o.stdout));
    } else if c.missing.is_some() {
        ensure!(!o.ok() && o.code.is_some(), "hashing a file that is not there: {}", o.brief());
    } else {
        ensure!(o.ok(), "hashing: {}", o.brief());
        let all = hex64(&o.stdout);
        ensure!(all == want.iter().map(|x| x.1.clone()).collect::<Vec<_>>(), "hashes shown: {all:?} instead of {want:?}");
        for (n, h) in &want {
            ensure!(o.stdout.lines().any(|l| l.contains(n.as_str()) && l.contains(h.as_str())), "the hash is not shown next to {n:?}: {}", o.brief());
        }
        cov.nontrivial();
    }
    ensure!(w.tree() == before, "hashing changed something");
    Ok(())
}

pub fn c25(ctx: &Ctx) {
    ctx.check("files", ctx.scale(1500, 15_000), e2e_strategy, |c, cov| e2e(ctx, c, cov));
    ctx.check("archives", ctx.scale(900, 10_000), pack_e2e_strategy, |c, cov| pack_e2e(ctx, c, cov));
    ctx.check(
        "hash",
        ctx.scale(200, 2000),
        || {
            (vec(("[a-z]{1,5}( [a-z]{1,3})?", data(2)), 1..5), prop::option::weighted(0.1, any::<u8>()), prop_oneof![2 => Just(vec![]).boxed(), 1 => vec(any::<u8>(), 1..3).boxed()], prop::option::weighted(0.2, 0u64..12))
                .prop_map(|(files, missing, again, rfail)| HashE2e { files, missing, again, rfail })
                .boxed()
        },
        |c, cov| hash_e2e(ctx, c, cov),
    );
    // what is asked for besides the output fails: no success either
    ctx.check(
        "hash_read",
        ctx.scale(250, 3000),
        || {
            (harm_strategy(), 0u64..80, prop::bool::weighted(0.2))
                .prop_map(|(mut c, k, many)| {
                    if !many {
                        c.tree.dirs.clear();
                        c.tree.files.truncate(1);
                    }
                    c.data.len %= 3000;
                    c.harm = Harm::ReadFail(match c.verb {
                        0 => k % 10,
                        1 => k % 40,
                        2 => k % 16,
                        _ => k,
                    });
                    c.hash = true;
                    c
                })
                .boxed()
        },
        |c, cov| harmed(ctx, c, cov),
    );
}

// ------------------------------------------------------------------ C19

/// Names an argument can have. What they lead to: `target`.
const NAMES: [&str; 15] = ["new", "old", "in", "./in", "d/../in", "ABS", "ln_in", "hl_in", "ln_by", "dangling", "d", "no/such/x", "d/new", "old.header", "new.header"];

/// None: leads nowhere it could be created.
fn target(n: u8) -> &'static str {
    match NAMES[n as usize % NAMES.len()] {
        "./in" | "d/../in" | "ABS" | "ln_in" | "hl_in" => "in",
        "ln_by" => "by",
        "dangling" => "gone",
        x => x,
    }
}
fn exists(n: u8) -> bool {
    !matches!(target(n), "new" | "gone" | "no/such/x" | "d/new")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Args {
    verb: u8,
    out: u8,
    header: Option<u8>,
    force: bool,
    erase: bool,
    answers: Vec<String>,
    wrong: u8,
    input: u8,
    data: Data,
    /// the files in the way are empty
    #[serde(default)]
    empty: bool,
}

fn answers() -> BoxedStrategy<Vec<String>> {
    let x = prop_oneof![
        12 => prop::sample::select(vec!["y", "y", "", "n", "n", "Y", "N", "yes", "no", "what", "  "]).prop_map(String::from),
        1 => "[a-zA-Z0-9+!?. -]",
        1 => "[a-zA-Z ]{2,5}",
        1 => prop::sample::select(vec!["true", "ok", "1", "0", "sure", "ja", "oui", "si", "\u{434}\u{430}", "\u{ff59}", "\u{fd}", " y", "\ty", "-y", "(Y/n)"]).prop_map(String::from),
    ];
    vec(x, 0..5).boxed()
}

fn args_strategy() -> BoxedStrategy<Args> {
    let n = || 0u8..NAMES.len() as u8;
    (
        0u8..2,
        prop_oneof![2 => 0u8..2, 3 => n()],
        prop::option::weighted(0.4, prop_oneof![1 => 0u8..2, 1 => 13u8..15, 2 => n()]),
        any::<bool>(),
        (any::<bool>(), prop::bool::weighted(0.2)),
        answers(),
        0u8..4,
        prop::sample::select(vec![2u8, 2, 2, 2, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 10, 11]),
        data_of(small_len()),
    )
        .prop_map(|(verb, out, header, force, (erase, empty), answers, wrong, input, data)| Args { verb, out, header, force, erase, answers, wrong, input, data, empty })
        .boxed()
}

/// What the answers decide, for so many questions whose default is yes: Some(true) all granted,
/// Some(false) one refused, None: they run out.
fn answered(a: &[String], questions: usize, default: bool) -> (Option<bool>, usize) {
    let mut k = 0;
    for _ in 0..questions {
        loop {
            let Some(x) = a.get(k) else { return (None, k) };
            k += 1;
            match x.to_lowercase().chars().next() {
                None if default => break,
                None => return (Some(false), k),
                Some('y') => break,
                Some('n') => return (Some(false), k),
                _ => continue,
            }
        }
    }
    (Some(true), k)
}

fn args_case(ctx: &Ctx, c: &Args, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let dec = c.verb == 1;
    let pt = c.data.bytes();
    let key = b"the key";
    let spec = Spec { version: 5, alg: Alg::XChaCha, memory: false, slots: vec![(BALLOON, key.to_vec())], seed: c.data.seed };
    let b = spec.build(&pt);
    let mut content = if !dec {
        pt.clone()
    } else if c.header.is_some() {
        b.body.clone()
    } else {
        b.file()
    };
    if dec && c.wrong == 2 {
        // damaged
        let n = content.len();
        content[n - 1] ^= 1;
    }
    w.put("in", &content);
    w.put("by", b"a bystander");
    w.put("old", &prand(9, if c.empty { 0 } else { 900 }));
    w.put("old.header", &prand(10, if c.empty { 0 } else { 416 }));
    w.put("new.header", &prand(11, if c.empty { 0 } else { 30 }));
    w.put("d/f", b"in a directory");
    w.put("k", key);
    w.put("k2", b"another key");
    std::os::unix::fs::symlink("in", w.w("ln_in")).unwrap();
    std::os::unix::fs::symlink("by", w.w("ln_by")).unwrap();
    std::os::unix::fs::symlink("gone", w.w("dangling")).unwrap();
    let uses = |n: u8| c.out == n || c.header == Some(n);
    if uses(7) {
        std::fs::hard_link(w.w("in"), w.w("hl_in")).unwrap();
    }
    let name = |n: u8| match NAMES[n as usize % NAMES.len()] {
        "ABS" => w.w("in").to_str().unwrap().to_string(),
        x => x.to_string(),
    };
    let out_t = target(c.out);
    let hdr_t = c.header.map(target);
    // a header that can be read, for decryption
    let mut hdr_ok = false;
    if let (true, Some(h)) = (dec, hdr_t) {
        if matches!(h, "new" | "old" | "by" | "d/new" | "old.header" | "new.header") {
            w.put(h, &b.header);
            hdr_ok = true;
        }
    }
    let key_ok = !(dec && c.wrong == 1);
    let mut a: Vec<String> = vec![if dec { "decrypt" } else { "encrypt" }.into(), name(c.input), name(c.out)];
    a.extend(["-k".into(), if key_ok { "k" } else { "k2" }.into()]);
    if let Some(h) = c.header {
        a.extend(["--header".into(), name(h)]);
    }
    if c.force {
        a.push("-f".into());
    }
    if c.erase {
        a.push("--erase".into());
    }
    let before = w.tree();
    let mut cmd = w.cmd(&a);
    cmd.stdin = c.answers.iter().map(|x| format!("{x}\n")).collect::<String>().into_bytes();
    let o = cmd.run()?;
    let after = w.tree();
    let shown = format!("{} (answers {:?})", a.join(" "), c.answers);
    ensure!(o.code.is_some() && o.code != Some(101), "{shown}: {}", o.brief());
    let changed: Vec<&PathBuf> = before.keys().chain(after.keys()).filter(|p| before.get(*p) != after.get(*p)).collect();

    // the input is never the output, however it is spelled
    let in_t = target(c.input);
    let clash = out_t == in_t || hdr_t == Some(out_t) || (!dec && hdr_t == Some(in_t));
    if clash {
        cov.label("same_file");
        cov.nontrivial();
        ensure!(!o.ok(), "{shown} succeeded");
        ensure!(changed.is_empty(), "{shown}: changed {changed:?}");
        return Ok(());
    }
    // existing files are overwritten only with consent
    let questions = if c.force { 0 } else { usize::from(exists_now(&before, c.out)) + usize::from(!dec && c.header.map_or(false, |h| exists_now(&before, h))) };
    match answered(&c.answers, questions, true).0 {
        Some(true) => {}
        Some(false) => {
            cov.label("refused");
            cov.nontrivial();
            ensure!(changed.is_empty(), "{shown}: changed {changed:?} although the user declined");
            return Ok(());
        }
        None => {
            cov.label("no_answer");
            cov.nontrivial();
            ensure!(!o.ok(), "{shown} succeeded without an answer");
            ensure!(changed.is_empty(), "{shown}: changed {changed:?} without an answer");
            return Ok(());
        }
    }
    let mut may: Vec<PathBuf> = vec![out_t.into()];
    if !dec {
        may.extend(hdr_t.map(PathBuf::from));
    }
    // an input that is none is refused, and what is in the way of the output stays
    let no_file = |n: u8| matches!(target(n), "d" | "no/such/x" | "gone");
    if no_file(c.input) || (dec && c.header.map_or(false, no_file)) {
        cov.label("no_input");
        cov.nontrivial();
        ensure!(!o.ok(), "{shown} succeeded");
        ensure!(changed.is_empty(), "{shown}: changed {changed:?} although there is nothing to read");
        return Ok(());
    }
    if o.ok() {
        // whatever claims to have worked did
        let file = w.get(out_t).unwrap_or_default();
        if dec {
            ensure!(c.wrong != 1 && c.wrong != 2 || (c.wrong == 2 && false), "{shown} succeeded");
            ensure!(file == pt, "{shown}: another content");
        } else {
            let h = hdr_t.map(|h| w.get(h).unwrap_or_default());
            ensure!(open_with(key, h.as_deref(), &file).map_or(false, |x| x.1 == pt), "{shown}: the output does not open");
        }
        if c.erase {
            may.push("in".into());
            may.push("hl_in".into());
            may.push("ln_in".into());
            let gone = !w.exists(name(c.input));
            ensure!(gone, "{shown}: the input is still there");
            if let Some(x) = w.get("in") {
                // (an erased file ends as zeros, which the content may have been)
                ensure!(pt.len() < 8 || x != content || content.iter().all(|b| *b == 0), "{shown}: the content of the input is still there");
            }
        }
        cov.label(if c.erase { "worked_erased" } else { "worked" });
        cov.nontrivial();
    } else {
        // known to be feasible: it must have worked
        let creatable = |n: u8| !matches!(target(n), "gone" | "d" | "no/such/x");
        let feasible = creatable(c.out) && if dec { c.wrong != 1 && c.wrong != 2 && (c.header.is_none() || hdr_ok) } else { c.header.map_or(true, creatable) };
        ensure!(!feasible, "{shown} failed: {}", o.brief());
        cov.label("failed");
        if c.erase {
            cov.nontrivial();
        }
    }
    for p in changed {
        ensure!(may.contains(p), "{shown}: changed {p:?} as well (exit {:?})", o.code);
    }
    ensure!(w.temps().is_empty(), "temporary files left");
    Ok(())
}

fn exists_now(before: &Tree, n: u8) -> bool {
    match target(n) {
        "gone" | "no/such/x" => false,
        t => before.contains_key(Path::new(t)),
    }
}

// pack, unpack, erase

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DirArgs {
    verb: u8,
    tree: TreeSpec,
    out: u8,
    force: bool,
    erase: bool,
    answers: Vec<String>,
    wrong: bool,
    header: bool,
    /// bits: which of the files unpacked exist already
    present: u32,
    /// further directories to pack
    #[serde(default)]
    more: usize,
}

fn dir_strategy() -> BoxedStrategy<DirArgs> {
    (0u8..4, tree(5, false), 0u8..8, any::<bool>(), any::<bool>(), answers(), prop::bool::weighted(0.2), prop::bool::weighted(0.3), any::<u32>(), prop_oneof![3 => Just(0usize), 3 => 1usize..5])
        .prop_map(|(verb, tree, out, force, erase, answers, wrong, header, present, more)| DirArgs { verb, tree, out, force, erase, answers, wrong, header, present, more })
        .boxed()
}

fn dir_case(ctx: &Ctx, c: &DirArgs, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let t = c.tree.build();
    let key = b"the key";
    w.put("by", b"a bystander");
    w.put("other/f", b"another one");
    w.put("k", key);
    w.put("k2", b"another key");
    let stdin = c.answers.iter().map(|x| format!("{x}\n")).collect::<String>().into_bytes();
    let flags = |a: &mut Vec<String>| {
        if c.force {
            a.push("-f".into());
        }
    };
    match c.verb {
        0 | 1 => {
            // pack
            real_tree(&w.w("src"), &t);
            std::os::unix::fs::symlink("src", w.w("ln_src")).unwrap();
            w.put("old", &prand(9, 900));
            let sub = t.iter().find(|(p, x)| x.is_none() && p.to_str().is_some()).map_or("src/packed".into(), |(p, _)| format!("src/{}/packed", p.display()));
            let outs = ["new", "old", "src/packed", "other/new", "ln_src/packed", "other", "./src/../old", &sub];
            let out = outs[c.out as usize % outs.len()];
            let out_t = match out {
                "ln_src/packed" => "src/packed",
                "./src/../old" => "old",
                x => x,
            };
            // where the header goes
            let again = ["./", "other/../", "ln_other/../"][c.present as usize / 8 % 3].to_string() + out_t;
            let head = if c.wrong { "src/head" } else if c.present % 8 == 0 && !out_t.starts_with("src/") { &again } else { "head" };
            std::os::unix::fs::symlink("other", w.w("ln_other")).unwrap();
            if w.w(&sub).symlink_metadata().is_ok() || t.contains_key(Path::new("packed")) || t.keys().any(|p| p.starts_with("packed")) {
                return Ok(());
            }
            let roots: Vec<String> = std::iter::once("src".into()).chain((1..=c.more).map(|k| format!("src{k}"))).collect();
            for r in &roots[1..] {
                w.put(&format!("{r}/a"), &prand(h64(r.as_bytes()), 40));
                w.put(&format!("{r}/sub/b"), r.as_bytes());
            }
            let header_there = c.header && head == "head" && c.present % 8 > 4;
            if header_there {
                w.put("head", &prand(10, 416));
            }
            // one of the directories does not exist
            let missing = c.present % 64 > 58;
            let mut a: Vec<String> = vec!["pack".into()];
            a.extend(roots.iter().cloned());
            if missing {
                a.insert(1 + c.present as usize % a.len(), "nothing".into());
            }
            a.extend([out.into(), "-k".into(), "k".into()]);
            flags(&mut a);
            if c.erase {
                a.push("--erase".into());
            }
            if c.header {
                a.extend(["--header".into(), head.into()]);
            }
            if c.header && c.wrong && (t.contains_key(Path::new("head")) || out_t == "src/head") {
                return Ok(());
            }
            let before = w.tree();
            let mut cmd = w.cmd(&a);
            cmd.stdin = stdin;
            let o = cmd.run()?;
            let after = w.tree();
            let shown = format!("{} (answers {:?})", a.join(" "), c.answers);
            ensure!(o.code.is_some() && o.code != Some(101), "{shown}: {}", o.brief());
            let changed: Vec<&PathBuf> = before.keys().chain(after.keys()).filter(|p| before.get(*p) != after.get(*p)).collect();
            if c.header && head == again {
                cov.label("pack_same_header");
                cov.nontrivial();
                ensure!(!o.ok() && changed.is_empty(), "{shown}: exit {:?}, changed {changed:?}", o.code);
                return Ok(());
            }
            let inside = out_t.starts_with("src/") || (c.header && c.wrong);
            if c.erase && inside {
                cov.label("pack_output_inside");
                cov.nontrivial();
                ensure!(!o.ok() && changed.is_empty(), "{shown}: exit {:?}, changed {changed:?}", o.code);
                return Ok(());
            }
            let q = if c.force { 0 } else { usize::from(before.contains_key(Path::new(out_t))) + usize::from(header_there) };
            let (ans, used) = answered(&c.answers, q, true);
            if ans != Some(true) {
                cov.label("pack_refused");
                cov.nontrivial();
                ensure!(changed.is_empty() && (ans.is_some() || !o.ok()), "{shown}: exit {:?}, changed {changed:?}", o.code);
                return Ok(());
            }
            if missing {
                cov.label("pack_missing");
                cov.nontrivial();
                ensure!(!o.ok() && changed.is_empty(), "{shown}: exit {:?}, changed {changed:?} although a directory is missing", o.code);
                return Ok(());
            }
            if header_there {
                cov.label("pack_header_there");
            }
            let mut may: Vec<PathBuf> = vec![out_t.into()];
            if c.header {
                may.push(head.into());
            }
            // and asks again before erasing a directory, with the opposite default
            // each directory in turn; the first refusal may settle it for the others
            let mut left = &c.answers[used..];
            let mut consents = vec![];
            for _ in &roots {
                let (x, n) = if c.force { (Some(true), 0) } else { answered(left, 1, false) };
                left = &left[n..];
                consents.push(x);
                if x != Some(true) {
                    break;
                }
            }
            let unanswered = consents.last() == Some(&None);
            let erased = |p: &Path| c.erase && roots.iter().zip(&consents).any(|(r, x)| p.starts_with(r) && *x == Some(true));
            let maybe = |p: &Path| c.erase && consents.last() == Some(&Some(false)) && roots.iter().skip(consents.len()).any(|r| p.starts_with(r));
            let complete = || -> bool {
                let h = c.header.then(|| w.get(head).unwrap_or_default());
                let f = w.get(out_t).unwrap_or_default();
                let Some((_, z)) = open_with(key, h.as_deref(), &f) else { return false };
                zip_holds(&z, Path::new("src"), &t)
                    && roots[1..].iter().all(|r| {
                        let t = Tree::from([("sub".into(), None), ("a".into(), Some(prand(h64(r.as_bytes()), 40))), ("sub/b".into(), Some(r.clone().into_bytes()))]);
                        zip_holds(&z, Path::new(r), &t)
                    })
            };
            if out_t == "other" {
                ensure!(!o.ok(), "{shown} wrote to a directory");
            } else if c.erase && unanswered {
                ensure!(!o.ok(), "{shown}: erased without an answer?");
                ensure!(complete(), "{shown}: incomplete");
            } else {
                ensure!(o.ok(), "{shown} failed: {}", o.brief());
                ensure!(complete(), "{shown}: incomplete");
            }
            if out_t != "other" {
                for r in &roots {
                    if erased(Path::new(r)) {
                        ensure!(!w.exists(r), "{shown}: {r} is still there");
                        cov.label("pack_erased");
                    }
                }
                if c.erase && consents.last() != Some(&Some(true)) {
                    cov.label("pack_erase_declined");
                }
                for p in changed {
                    ensure!(may.contains(p) || erased(p) || maybe(p), "{shown}: changed {p:?}");
                }
                if !c.erase {
                    cov.label("pack");
                }
            } else {
                ensure!(changed.is_empty(), "{shown}: changed {changed:?}");
            }
            cov.nontrivial();
        }
        2 => {
            // unpack
            let s = MemStorage::new();
            plant(&s, Path::new("src"), &t);
            let cfg = Cfg { version: 5, alg: Alg::XChaCha, kdf: BALLOON };
            // (an archive need not list its directories)
            let bare = c.more >= 3 && t.values().any(Option::is_some);
            let (f, h) = if bare {
                let mut z = zip::ZipWriter::new(std::io::Cursor::new(vec![]));
                for (p, x) in t.iter().filter_map(|(p, x)| Some((p, x.as_ref()?))) {
                    let o: zip::write::FileOptions<'_, ()> = zip::write::FileOptions::default().compression_method(zip::CompressionMethod::Stored);
                    z.start_file(format!("src/{}", p.display()), o).unwrap();
                    std::io::Write::write_all(&mut z, x).unwrap();
                }
                let b = Spec { version: 5, alg: Alg::XChaCha, memory: false, slots: vec![(BALLOON, key.to_vec())], seed: 3 }.build(&z.finish().unwrap().into_inner());
                if c.header && c.out != 6 { (b.body, Some(b.header)) } else { (b.file(), None) }
            } else {
                pack_mem(&Arc::new(s), "src", key, &cfg, c.header && c.out != 6, zip::CompressionMethod::Stored)?
            };
            w.put("in", &f);
            if let Some(h) = &h {
                w.put("head", h);
            }
            w.put("dest/mine", b"was here before");
            let mut present = 0;
            for (i, (p, x)) in t.iter().enumerate() {
                if x.is_some() && c.present >> (i % 32) & 1 == 1 {
                    let p = Path::new("dest/src").join(p);
                    w.put(p.to_str().unwrap(), if c.more % 2 == 1 { b"" } else { b"an older version, which is not what was packed" });
                    present += 1;
                }
            }
            let mut a: Vec<String> = vec!["unpack".into(), "in".into(), "dest".into(), "-k".into(), if c.wrong { "k2" } else { "k" }.into()];
            flags(&mut a);
            if c.erase {
                a.push("--erase".into());
            }
            if c.header {
                // (a directory is no header)
                a.extend(["--header".into(), if c.out == 6 { "other" } else { "head" }.into()]);
            }
            // one answer for every question, or none
            let word = c.answers.first().cloned();
            let yes = match word.as_deref() {
                None => None,
                Some(x) => answered(&[x.to_string()], 1, true).0,
            };
            let before = w.tree();
            let mut cmd = w.cmd(&a);
            let each = bare && !c.force && c.out < 4;
            let turns: String = (0..present).map(|k| if c.present.rotate_right(7) >> (k % 32) & 1 == 1 { 'y' } else { 'n' }).collect();
            if each {
                cmd.stdin = turns.chars().flat_map(|x| [x, '\n']).collect::<String>().into_bytes();
            } else if let Some(x) = &word {
                cmd.stdin = format!("{x}\n").repeat(200).into_bytes();
            }
            let o = cmd.run()?;
            let after = w.tree();
            let shown = format!("{} (answers {word:?}, {present} files there)", a.join(" "));
            ensure!(o.code.is_some() && o.code != Some(101), "{shown}: {}", o.brief());
            ensure!(w.temps().is_empty(), "{shown}: temporary files left: {:?}", w.temps().keys());
            let changed: Vec<&PathBuf> = before.keys().chain(after.keys()).filter(|p| before.get(*p) != after.get(*p)).collect();
            if c.header && c.out == 6 {
                ensure!(!o.ok(), "{shown} succeeded");
                ensure!(changed.is_empty(), "{shown}: changed {changed:?} although there is no header");
                cov.label("unpack_no_header");
                return Ok(());
            }
            if c.wrong {
                ensure!(!o.ok(), "{shown} succeeded");
                for p in changed {
                    ensure!(*p == Path::new("dest") || p.starts_with("dest") && !before.contains_key(p), "{shown}: changed {p:?}");
                }
                cov.label("unpack_wrong_key");
                return Ok(());
            }
            if each {
                // one answer for each file that is there
                ensure!(o.ok(), "{shown} answers {turns}: {}", o.brief());
                let (mut over, mut either) = (0, 0);
                for (p, x) in t.iter().filter_map(|(p, x)| Some((Path::new("dest/src").join(p), x.as_ref()?))) {
                    let was = before.get(&p).cloned().flatten();
                    let is = after.get(&p).cloned().flatten();
                    if was.as_ref() == Some(x) {
                        either += 1;
                    } else if is.as_ref() != Some(x) {
                        ensure!(was.is_some() && is == was, "{shown} answers {turns}: {p:?} is neither as packed nor as before");
                    } else if was.is_some() {
                        over += 1;
                    }
                }
                let want = turns.matches('y').count();
                ensure!(over <= want && want <= over + either, "{shown} answers {turns}: {over} of {present} files overwritten, granted were {want}");
                for p in changed {
                    ensure!(p.starts_with("dest/src") || (c.erase && p == Path::new("in")), "{shown}: changed {p:?}");
                }
                cov.label("unpack_each");
                cov.nontrivial();
                return Ok(());
            }
            // directories that are there already are asked about as well, so that every
            // unpacking into an existing directory may need answers
            let asks = !c.force && if bare { present > 0 } else { w.exists("dest/src") };
            let mut want = expected(Path::new("dest"), &[("src".into(), &t)]);
            if bare {
                let files: Vec<PathBuf> = want.iter().filter(|x| x.1.is_some()).map(|x| x.0.clone()).collect();
                want.retain(|p, x| x.is_some() || files.iter().any(|f| f.starts_with(p)));
            }
            if o.ok() {
                for (p, x) in &want {
                    let was = before.get(p);
                    let is = after.get(p);
                    if x.is_some() && was.is_some() && !c.force && yes != Some(true) {
                        ensure!(is == was, "{shown}: {p:?} was overwritten");
                    } else if x.is_some() && (c.force || yes == Some(true) || !asks) {
                        ensure!(is == Some(x), "{shown}: {p:?} was not unpacked");
                    }
                }
                ensure!(c.force || yes.is_some() || present == 0, "{shown} succeeded without an answer");
                ensure!(w.exists("in") != c.erase, "{shown}: the archive is there: {}", w.exists("in"));
            } else {
                ensure!(!c.force && yes.is_none() && asks, "{shown} failed: {}", o.brief());
                ensure!(w.get("in").as_ref() == Some(&f), "{shown}: failed, and the archive is gone");
                for (p, was) in &before {
                    ensure!(after.get(p) == Some(was), "{shown}: changed {p:?} without an answer");
                }
            }
            for p in changed {
                ensure!(want.contains_key(p) || (c.erase && o.ok() && p == Path::new("in")), "{shown}: changed {p:?}");
            }
            cov.label(if o.ok() { "unpack" } else { "unpack_no_answer" });
            cov.nontrivial();
        }
        _ => {
            // erase
            real_tree(&w.w("src"), &t);
            w.put("file", b"content");
            std::os::unix::fs::symlink(w.w("by"), w.w("src/a link out")).unwrap();
            std::os::unix::fs::symlink(w.w("other"), w.w("src/a link to a directory")).unwrap();
            let dir = c.out % 2 == 0;
            let arg = if c.wrong { "nothing" } else if dir { "src" } else { "file" };
            let mut a: Vec<String> = vec!["erase".into(), arg.into()];
            flags(&mut a);
            if c.header {
                a.push("--passes=2".into());
            }
            let before = w.tree();
            let mut cmd = w.cmd(&a);
            cmd.stdin = stdin;
            let o = cmd.run()?;
            let after = w.tree();
            let shown = format!("{} (answers {:?})", a.join(" "), c.answers);
            ensure!(o.code.is_some() && o.code != Some(101), "{shown}: {}", o.brief());
            let mut want = before.clone();
            if c.wrong {
                ensure!(!o.ok(), "{shown} succeeded");
            } else {
                let (ans, _) = if dir && !c.force { answered(&c.answers, 1, false) } else { (Some(true), 0) };
                ensure!(o.ok() == ans.is_some(), "{shown}: {}", o.brief());
                if ans == Some(true) {
                    want.retain(|p, _| !p.starts_with(arg));
                }
                cov.label(format!("erase_{}_{ans:?}", if dir { "dir" } else { "file" }));
            }
            ensure!(after == want, "{shown}: {}", tree_diff(&after, &want));
            cov.nontrivial();
        }
    }
    ensure!(w.temps().is_empty(), "temporary files left: {:?}", w.temps().keys());
    ensure!(w.get("by").as_deref() == Some(b"a bystander") && w.get("other/f").as_deref() == Some(b"another one"), "a bystander was changed");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Over {
    tree: TreeSpec,
    /// the entry leads to the header, not to the archive
    head: bool,
    detached: bool,
    /// 0: it is the file itself; 1: another name of it; 2: a link to it
    link: u8,
    here: bool,
    force: bool,
    yes: bool,
    erase: bool,
    fail: Option<u64>,
}

/// An archive that has an entry for the place where the archive (or its header) is.
fn over_itself(ctx: &Ctx, c: &Over, cov: &mut Cov) -> Res {
    let t = c.tree.build();
    let mine = Path::new("self");
    if t.keys().any(|p| p.starts_with(mine)) {
        return Ok(());
    }
    let w = World::new(ctx);
    let key = b"the key";
    let mut all = t.clone();
    all.insert(mine.into(), Some(b"an older archive that was packed as well".to_vec()));
    let s = MemStorage::new();
    plant(&s, Path::new("src"), &all);
    let cfg = Cfg { version: 5, alg: Alg::XChaCha, kdf: BALLOON };
    let (f, h) = pack_mem(&Arc::new(s), "src", key, &cfg, c.detached, zip::CompressionMethod::Stored)?;
    let dest = if c.here { "." } else { "dest" };
    let target = format!("{dest}/src/self");
    let head = c.head && c.detached;
    let place = if c.link == 0 { target.as_str() } else { "hit" };
    let (at, hat) = match (head, c.detached) {
        (true, _) => ("in", place),
        (false, true) => (place, "head"),
        (false, false) => (place, ""),
    };
    w.put("k", key);
    w.put(at, &f);
    if let Some(h) = &h {
        w.put(hat, h);
    }
    std::fs::create_dir_all(w.w(&target).parent().unwrap()).unwrap();
    match c.link {
        0 => {}
        1 => std::fs::hard_link(w.w(place), w.w(&target)).unwrap(),
        _ => std::os::unix::fs::symlink(w.w(place), w.w(&target)).unwrap(),
    }
    let mut a: Vec<String> = ["unpack", at, dest, "-k", "k"].map(String::from).to_vec();
    if c.detached {
        a.extend(["--header".into(), hat.into()]);
    }
    if c.force {
        a.push("-f".into());
    }
    if c.erase {
        a.push("--erase".into());
    }
    let mut cmd = w.cmd(&a);
    cmd.stdin = if c.yes { b"y\n" } else { b"n\n" }.repeat(200);
    if let Some(k) = c.fail {
        cmd.shim = Some(Shim { fail_from: Some(k), errno: libc::ENOSPC, ..Shim::default() });
    }
    let o = cmd.run()?;
    let shown = format!("{} (yes: {}, {:?})", a.join(" "), c.yes, c.fail);
    ensure!(o.code.is_some() && o.code != Some(101), "{shown}: {}", o.brief());
    let kept = w.get(at).as_ref() == Some(&f) && (!c.detached || w.get(hat) == h);
    let declined = !c.force && !c.yes;
    let complete = all.iter().all(|(p, x)| match x {
        None => true,
        Some(x) => declined && p == mine || w.get(Path::new(dest).join("src").join(p).to_str().unwrap()).as_ref() == Some(x),
    });
    ensure!(kept || complete, "{shown}: neither the archive nor what was in it is there: {}", o.brief());
    ensure!(!o.ok() || complete, "{shown}: succeeded, and not everything was unpacked");
    cov.label(format!("{}_{}", if head { "header" } else { "archive" }, if o.ok() { "done" } else { "refused" }));
    cov.nontrivial();
    Ok(())
}

fn zip_holds(z: &[u8], root: &Path, t: &Tree) -> bool {
    let Ok(mut a) = zip::ZipArchive::new(std::io::Cursor::new(z)) else { return false };
    let mut have: BTreeMap<PathBuf, Vec<u8>> = BTreeMap::new();
    for i in 0..a.len() {
        let Ok(mut f) = a.by_index(i) else { return false };
        let mut b = vec![];
        if std::io::copy(&mut f, &mut b).is_err() {
            return false;
        }
        let p: PathBuf = Path::new(f.name()).components().collect();
        have.insert(p, b);
    }
    t.iter().all(|(p, x)| x.as_ref().map_or(true, |x| have.get(&root.join(p)) == Some(x)))
}

// under faults

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Harm {
    Kill(u64),
    Fail(u64, i32),
    FailFrom(u64, i32),
    ReadFail(u64),
    /// so many files may be open
    Files(u64),
    /// no file may be longer (per mille of the longest one of an undisturbed run)
    Full(u64),
    /// no thread can be started from this one on
    Threads(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Harmed {
    verb: u8,
    tree: TreeSpec,
    data: Data,
    harm: Harm,
    header: bool,
    zstd: bool,
    existing: bool,
    passes: i32,
    /// the number of passes as it is written, if it is not `passes`
    #[serde(default)]
    odd: Option<String>,
    #[serde(default)]
    hash: bool,
}

/// Ways to give a number of passes that is none, or not quite; "" stands for leaving it away.
fn odd_passes() -> BoxedStrategy<Option<String>> {
    let texts = ["", "x", "3.5", "1e1", "0x3", "+2", "02", "-1", "-3", " 2", "2 ", "2,", "two", "99999999999", "2147483648", "-2147483648", "-2147483649", "\u{ff12}", "NaN", "true", "0", "="];
    prop::option::weighted(0.12, prop::sample::select(texts.map(String::from).to_vec())).boxed()
}

/// The passes that were asked for, or the documented default.
fn read_passes(odd: &str) -> Result<i32, ()> {
    if odd.is_empty() { Ok(1) } else { odd.parse().map_err(|_| ()) }
}

fn harm_strategy() -> BoxedStrategy<Harmed> {
    let e = || prop::sample::select(vec![libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EACCES]);
    let harm = prop_oneof![
        4 => any::<u64>().prop_map(Harm::Kill),
        4 => (any::<u64>(), e()).prop_map(|(k, e)| Harm::Fail(k, e)),
        2 => (any::<u64>(), e()).prop_map(|(k, e)| Harm::FailFrom(k, e)),
        2 => any::<u64>().prop_map(Harm::ReadFail),
        1 => (5u64..18).prop_map(Harm::Files),
        1 => (0u64..1100).prop_map(Harm::Full),
        1 => (0u64..8).prop_map(Harm::Threads),
    ];
    (0u8..4, tree(5, false), data_of(prop_oneof![4 => small_len(), 1 => len_strategy(2)].boxed()), harm, any::<bool>(), prop::bool::weighted(0.2), any::<bool>(), 1i32..3, prop::bool::weighted(0.3))
        .prop_map(|(verb, tree, mut data, harm, header, zstd, existing, passes, hash)| {
            data.fill = 1;
            Harmed { verb, tree, data, harm, header, zstd, existing, passes, odd: None, hash }
        })
        .boxed()
}

fn changes(log: &[Rec]) -> u64 {
    log.iter().filter(|r| matches!(r.t, b'W' | b'T' | b'C' | b'U' | b'D' | b'N' | b'M' | b'X')).count() as u64
}

struct Setup {
    w: World,
    args: Vec<String>,
    t: Tree,
    pt: Vec<u8>,
    file: Vec<u8>,
}

fn harm_setup(ctx: &Ctx, c: &Harmed) -> Result<Setup, Fail> {
    let w = World::new(ctx);
    let key = b"the key";
    let t = c.tree.build();
    let pt = c.data.bytes();
    let mut file = vec![];
    w.put("k", key);
    w.put("by", b"a bystander");
    let er = match c.odd.as_deref() {
        Some("") => "--erase".to_string(),
        Some(n) => format!("--erase={n}"),
        None => format!("--erase={}", c.passes),
    };
    let mut a: Vec<&str> = match c.verb {
        0 => {
            w.put("in", &pt);
            vec!["encrypt", "in", "out", &er]
        }
        1 => {
            let b = Spec { version: 5, alg: Alg::XChaCha, memory: false, slots: vec![(BALLOON, key.to_vec())], seed: c.data.seed }.build(&pt);
            file = if c.header { b.body.clone() } else { b.file() };
            w.put("in", &file);
            if c.header {
                w.put("head", &b.header);
            }
            vec!["decrypt", "in", "out", &er]
        }
        2 => {
            real_tree(&w.w("src"), &t);
            vec!["pack", "src", "out", "--erase"]
        }
        _ => {
            let s = MemStorage::new();
            plant(&s, Path::new("src"), &t);
            let cfg = Cfg { version: 5, alg: Alg::XChaCha, kdf: BALLOON };
            let m = if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
            let (f, h) = pack_mem(&Arc::new(s), "src", key, &cfg, c.header, m)?;
            w.put("in", &f);
            file = f;
            if let Some(h) = h {
                w.put("head", &h);
            }
            vec!["unpack", "in", "dest", &er]
        }
    };
    if c.zstd && c.verb == 2 {
        a.push("-z");
    }
    if c.header {
        a.extend(["--header", "head"]);
    }
    if c.hash {
        a.push("--hash");
    }
    a.extend(["-f", "-k", "k"]);
    if c.existing && c.verb != 3 {
        w.put("out", &prand(77, 5000));
    }
    let args = a.iter().map(|x| (*x).to_string()).collect();
    Ok(Setup { w, args, t, pt, file })
}

/// What is in the temporary files when they are cut or removed.
fn judge_temps(tmp: &Path, log: &[Rec], needles: &[Vec<u8>]) -> Result<(), String> {
    let mut content: BTreeMap<u64, Vec<u8>> = BTreeMap::new();
    let mut temp: BTreeSet<u64> = BTreeSet::new();
    for r in log {
        match r.t {
            b'C' | b'O' => {
                if r.path.starts_with(tmp) {
                    temp.insert(r.id);
                }
                if r.t == b'C' {
                    content.insert(r.id, vec![]);
                }
            }
            b'W' => {
                let c = content.entry(r.id).or_default();
                let end = r.off as usize + r.data.len();
                if c.len() < end {
                    c.resize(end, 0);
                }
                c[r.off as usize..end].copy_from_slice(&r.data);
            }
            b'T' | b'U' => {
                let c = content.entry(r.id).or_default();
                let keep = if r.t == b'T' { (r.off as usize).min(c.len()) } else { 0 };
                if temp.contains(&r.id) {
                    for n in needles {
                        if find(&c[keep..], n).is_some() {
                            return Err(format!("the temporary archive was {} while it still held what was packed", if r.t == b'T' { "cut" } else { "removed" }));
                        }
                    }
                }
                c.truncate(keep);
            }
            _ => {}
        }
    }
    Ok(())
}

fn needles(t: &Tree) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for b in t.values().flatten() {
        let mut at = 0;
        while at + 24 <= b.len() {
            let n = b[at..at + 24].to_vec();
            // bytes that could as well come from somewhere else say nothing
            if n.iter().collect::<BTreeSet<_>>().len() >= 8 {
                v.push(n);
            }
            at += 1500;
        }
    }
    v
}

fn harmed(ctx: &Ctx, c: &Harmed, cov: &mut Cov) -> Res {
    let probe = harm_setup(ctx, c)?;
    let mut cmd = probe.w.cmd(&probe.args);
    cmd.shim = Some(Shim::default());
    let o = cmd.run()?;
    let shown = probe.args.join(" ");
    ensure!(o.ok(), "{shown}: {}", o.brief());
    let n = changes(&o.log);
    ensure!(n > 0, "{shown} changed nothing");
    if !c.zstd {
        judge_temps(&probe.w.root().join("tmp"), &o.log, &needles(&probe.t))?;
    }
    let longest = o.log.iter().filter(|r| r.t == b'W').map(|r| r.off + r.data.len() as u64).max().unwrap_or(0);
    drop(probe);

    let s = harm_setup(ctx, c)?;
    let (w, key) = (&s.w, b"the key");
    let mut cmd = w.cmd(&s.args);
    let limited = matches!(c.harm, Harm::Files(_) | Harm::Full(_));
    let mut shim = Shim::default();
    match c.harm {
        Harm::Kill(k) => shim.kill_at = Some(k % n),
        Harm::Fail(k, e) => (shim.fail_at, shim.errno) = (Some(k % n), e),
        Harm::FailFrom(k, e) => (shim.fail_from, shim.errno) = (Some(k % n), e),
        Harm::Threads(k) => shim.threads = Some(k),
        Harm::ReadFail(k) => shim.rfail_at = Some(k % 24),
        Harm::Files(n) => cmd.nofile = Some(n),
        Harm::Full(n) => cmd.fsize = Some(n * longest / 1000),
    }
    // the recorder opens and writes files of its own
    cmd.shim = (!limited).then_some(shim);
    let o = cmd.run()?;
    let hit: Vec<String> = o.log.iter().filter(|r| matches!(r.t, b'X' | b'K')).map(|r| format!("{}{} of {:?}", r.t as char, String::from_utf8_lossy(&r.data), r.path)).take(3).collect();
    let shown = format!("{shown} under {:?} ({hit:?})", c.harm);
    let killed = o.signal == Some(libc::SIGKILL);
    ensure!(killed || (o.code.is_some() && o.code != Some(101)), "{shown}: {}", o.brief());

    let header = c.header.then(|| w.get("head").unwrap_or_default());
    let complete = match c.verb {
        0 => open_with(key, header.as_deref(), &w.get("out").unwrap_or_default()).map_or(false, |x| x.1 == s.pt),
        1 => w.get("out").as_ref() == Some(&s.pt),
        2 => open_with(key, header.as_deref(), &w.get("out").unwrap_or_default()).map_or(false, |x| zip_holds(&x.1, Path::new("src"), &s.t)),
        _ => {
            let want = expected(Path::new(""), &[("src".into(), &s.t)]);
            let got = read_tree(&w.w("dest"));
            want.iter().all(|(p, x)| got.get(p) == Some(x))
        }
    };
    let intact = match c.verb {
        0 => w.get("in").as_ref() == Some(&s.pt),
        2 => read_tree(&w.w("src")) == s.t,
        _ => w.get("in").as_ref() == Some(&s.file),
    };
    ensure!(intact || complete, "{shown}: the input is gone and the output incomplete ({})", o.brief());
    ensure!(w.get("k").as_deref() == Some(key) && w.get("by").as_deref() == Some(b"a bystander"), "{shown}: another file was changed");
    if c.verb == 1 && c.header {
        ensure!(header.as_ref().is_some_and(|h| !h.is_empty()), "{shown}: the header is gone");
    }
    if o.ok() {
        ensure!(complete, "{shown} reports success, and the output is incomplete");
        let gone = if c.verb == 2 { !w.exists("src") } else { !w.exists("in") };
        ensure!(gone, "{shown} reports success, and the input is still there");
        if c.hash {
            let file = if matches!(c.verb, 0 | 2) { w.get("out").unwrap_or_default() } else { s.file.clone() };
            let want = blake3::hash(&file).to_hex().to_string();
            ensure!(hex64(&o.stdout) == [want], "{shown} reports success, and the digest asked for is not shown: {}", o.brief());
            cov.label("hash_shown");
        }
    }
    // temporary archives: not when it is their own removal that is made to fail
    let tmp = w.root().join("tmp");
    let mut ids = BTreeSet::new();
    let mut spoiled = killed;
    for r in &o.log {
        if r.path.starts_with(&tmp) && r.id != 0 {
            ids.insert(r.id);
        }
        if r.t == b'X' && (ids.contains(&r.id) || r.path.starts_with(&tmp)) {
            // a failing read spoils nothing
            spoiled |= r.data != b"R";
        }
    }
    if !spoiled {
        ensure!(w.temps().is_empty(), "{shown}: temporary files left: {:?}", w.temps().keys());
        if !c.zstd && !limited {
            judge_temps(&tmp, &o.log, &needles(&s.t)).map_err(|e| format!("{shown}: {e}"))?;
        }
    }
    cov.evals(1);
    cov.label(["encrypt", "decrypt", "pack", "unpack"][c.verb as usize % 4]);
    cov.label(match (killed, o.ok(), intact) {
        (true, _, true) => "killed_input_intact",
        (true, _, false) => "killed_while_erasing",
        (_, true, _) => "succeeded",
        (_, false, true) => "failed_input_intact",
        _ => "failed_while_erasing",
    });
    if !hit.is_empty() || (limited && !o.ok()) {
        cov.nontrivial();
    }
    if limited {
        cov.label(format!("{:?}", c.harm).split('(').next().unwrap().to_string());
    }
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    ctx.check("files", ctx.scale(3000, 40_000), args_strategy, |c, cov| args_case(ctx, c, cov));
    ctx.check("directories", ctx.scale(2500, 30_000), dir_strategy, |c, cov| dir_case(ctx, c, cov));
    ctx.check(
        "over_itself",
        ctx.scale(400, 6000),
        || {
            (tree(3, false), any::<(bool, bool, bool, bool)>(), any::<(bool, bool)>(), 0u8..3, prop::option::weighted(0.4, 0u64..25))
                .prop_map(|(tree, (head, detached, here, force), (yes, erase), link, fail)| Over { tree, head, detached, link, here, force, yes, erase, fail })
                .boxed()
        },
        |c, cov| over_itself(ctx, c, cov),
    );
    ctx.check("harm", ctx.scale(1200, 20_000), harm_strategy, |c, cov| harmed(ctx, c, cov));
}

// ------------------------------------------------------------------ shares of C12, C13, C14

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TempCli {
    tree: TreeSpec,
    unpack: bool,
    /// 0 works, 1 wrong key, 2 damaged, 3 unanswered question, 4 output in the way
    outcome: u8,
    header: bool,
    chunk: Option<usize>,
}

fn temp_cli(ctx: &Ctx, c: &TempCli, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let t = c.tree.build();
    let key = b"the key";
    w.put("k", key);
    w.put("k2", b"other");
    let mut a: Vec<&str> = vec![];
    if c.unpack {
        let s = MemStorage::new();
        plant(&s, Path::new("src"), &t);
        let cfg = Cfg { version: 5, alg: Alg::XChaCha, kdf: BALLOON };
        let (mut f, h) = pack_mem(&Arc::new(s), "src", key, &cfg, c.header, zip::CompressionMethod::Stored)?;
        if c.outcome == 2 {
            let n = f.len();
            f[n - 1] ^= 1;
        }
        w.put("in", &f);
        if let Some(h) = h {
            w.put("head", &h);
        }
        a.extend(["unpack", "in", "dest"]);
        match c.outcome {
            3 => {
                for (p, x) in &t {
                    if x.is_some() {
                        w.put(Path::new("dest/src").join(p).to_str().unwrap(), b"there");
                    }
                }
            }
            4 => {
                // a directory where a file is to go
                if let Some((p, _)) = t.iter().find(|x| x.1.is_some()) {
                    std::fs::create_dir_all(w.w("dest/src").join(p)).unwrap();
                }
                a.push("-f");
            }
            _ => {}
        }
    } else {
        real_tree(&w.w("src"), &t);
        a.extend(["pack", "src", "out"]);
    }
    if c.header {
        a.extend(["--header", "head"]);
    }
    a.extend(["-k", if c.outcome == 1 { "k2" } else { "k" }]);
    let mut cmd = Cmd::new(w.root(), &a);
    cmd.shim = Some(Shim { short: c.chunk.unwrap_or(0), ..Shim::default() });
    let o = cmd.run()?;
    let shown = format!("{} (outcome {})", a.join(" "), c.outcome);
    ensure!(w.temps().is_empty(), "{shown}: left {:?} ({})", w.temps().keys(), o.brief());
    let tmp = w.root().join("tmp");
    judge_temps(&tmp, &o.log, &needles(&t)).map_err(|e| format!("{shown}: {e}"))?;
    // nothing is kept anywhere else
    for r in &o.log {
        let ok = r.path.as_os_str().is_empty() || r.path.starts_with(&tmp) || r.path.starts_with(w.w("dest")) || [w.w("out"), w.w("in"), w.w("head"), w.w("k"), w.w("k2")].contains(&r.path) || r.path.starts_with(w.w("src"));
        ensure!(ok, "{shown}: touched {:?}", r.path);
    }
    cov.label(format!("{}_{}", if c.unpack { "unpack" } else { "pack" }, if o.ok() { "ok" } else { "failed" }));
    if needles(&t).len() > 1 {
        cov.nontrivial();
    }
    Ok(())
}

/// Many files under the limit of open files that shells set by default.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OpenFiles {
    verb: u8,
    files: u32,
    limit: u64,
    zstd: bool,
}

fn open_files(ctx: &Ctx, c: &OpenFiles, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    w.put("k", b"the key");
    let t: Tree = (0..c.files).map(|k| (PathBuf::from(format!("f{k}")), Some(format!("content of file {k} {}", k % 7).into_bytes()))).collect();
    let verb = ["pack", "erase", "unpack"][c.verb as usize % 3];
    match verb {
        "unpack" => {
            let s = MemStorage::new();
            plant(&s, Path::new("src"), &t);
            let cfg = Cfg { version: 5, alg: Alg::XChaCha, kdf: BALLOON };
            let m = if c.zstd { zip::CompressionMethod::Zstd } else { zip::CompressionMethod::Stored };
            w.put("out", &pack_mem(&Arc::new(s), "src", b"the key", &cfg, false, m)?.0);
        }
        _ => real_tree(&w.w("src"), &t),
    }
    let run = |a: &[&str], limit: Option<u64>| {
        let mut cmd = w.cmd(&a.iter().map(|x| (*x).to_string()).collect::<Vec<_>>());
        cmd.soft_nofile = limit;
        cmd.run()
    };
    let pack = if c.zstd { vec!["pack", "src", "out", "-k", "k", "-z"] } else { vec!["pack", "src", "out", "-k", "k"] };
    let before = w.tree();
    let o = match verb {
        "pack" => run(&pack, Some(c.limit))?,
        "erase" => run(&["erase", "src", "-f"], Some(c.limit))?,
        _ => run(&["unpack", "out", "back", "-k", "k"], Some(c.limit))?,
    };
    ensure!(w.temps().is_empty(), "{verb} of {} files left temporary files", c.files);
    if !o.ok() {
        ensure!(o.code == Some(1) && w.tree().iter().all(|(p, b)| before.get(p).map_or(p == Path::new("out"), |x| x == b)), "{verb} of {} files: {}", c.files, o.brief());
        ensure!(before.keys().all(|p| w.exists(p)), "{verb} of {} files failed, but removed some", c.files);
        return Err(Fail {
            sig: (c.verb < 2 && u64::from(c.files) > c.limit).then(|| format!("{verb} of a directory with more files than may be open at once")),
            msg: format!("{verb} of {} files, {} may be open at once: {}", c.files, c.limit, o.brief()),
        });
    }
    match verb {
        "erase" => ensure!(!w.exists("src"), "erased, but still there"),
        _ => {
            if verb == "pack" {
                let o = run(&["unpack", "out", "back", "-k", "k"], None)?;
                ensure!(o.ok(), "unpacking {} files: {}", c.files, o.brief());
            }
            let got = read_tree(&w.w("back/src"));
            ensure!(got == t, "{verb} of {} files: {}", c.files, tree_diff(&got, &t));
        }
    }
    cov.label(format!("{verb}_{}", if u64::from(c.files) > c.limit { "above" } else { "below" }));
    cov.nontrivial();
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Itself {
    tree: TreeSpec,
    root: u8,
    place: u8,
    header: bool,
    existing: bool,
    zstd: bool,
}

/// The archive, and its header, are stored in the directory that is packed.
fn pack_itself(ctx: &Ctx, c: &Itself, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let t = c.tree.build();
    let dirs: Vec<String> = t.iter().filter(|(_, x)| x.is_none()).filter_map(|(p, _)| p.to_str()).map(|p| format!("src/{p}")).collect();
    let at = dirs.get(c.place as usize).map_or("src", |x| x.as_str());
    let (out, head) = (format!("{at}/packed"), format!("{at}/head"));
    real_tree(&w.w("src"), &t);
    if w.exists(&out) || w.exists(&head) {
        return Ok(());
    }
    w.put("k", b"the key");
    std::os::unix::fs::symlink("src", w.w("ln_src")).unwrap();
    if c.existing {
        w.put(&out, b"an older archive");
        w.put(&head, b"an older header");
    }
    let abs = w.w("src").to_str().unwrap().to_string();
    let (root, named): (&str, String) = match c.root % 5 {
        0 => ("src", out.clone()),
        1 => ("./src", out.clone()),
        2 => ("src/", format!("./{out}")),
        3 => ("src", format!("ln_{out}")),
        _ => (&abs, out.clone()),
    };
    let mut a: Vec<String> = ["pack", root, &named, "-k", "k", "-f"].map(String::from).to_vec();
    let mut b: Vec<String> = ["unpack", &out, "back", "-k", "k"].map(String::from).to_vec();
    if c.header {
        a.extend(["--header".into(), head.clone()]);
        b.extend(["--header".into(), head.clone()]);
    }
    if c.zstd {
        a.push("-z".into());
    }
    let o = w.cmd(&a).run()?;
    let shown = a.join(" ");
    ensure!(o.ok(), "{shown}: {}", o.brief());
    let mut want = t.clone();
    if c.existing && !c.header {
        // as any other file
        want.insert(Path::new(&head).strip_prefix("src").unwrap().into(), Some(b"an older header".to_vec()));
    }
    let o = w.cmd(&b).run()?;
    ensure!(o.ok(), "{shown}; {}: {}", b.join(" "), o.brief());
    let got = read_tree(&if c.root % 5 == 4 { w.w("back").join(abs.trim_start_matches('/')) } else { w.w("back/src") });
    ensure!(got == want, "{shown}: unpacked elsewhere: {}", tree_diff(&got, &want));
    // and where it came from
    if c.root % 5 != 4 {
        let before = w.tree();
        b[2] = ".".into();
        b.push("-f".into());
        let o = w.cmd(&b).run()?;
        ensure!(o.ok(), "{shown}; {}: {}", b.join(" "), o.brief());
        ensure!(w.tree() == before, "{shown}: unpacked in its place: {}", tree_diff(&w.tree(), &before));
    }
    cov.label(if at == "src" { "output_in_root" } else { "output_deeper" });
    cov.label(if c.header { "detached" } else { "embedded" });
    cov.nontrivial();
    Ok(())
}

pub fn c10_cli(ctx: &Ctx) {
    ctx.check(
        "output_inside",
        ctx.scale(200, 3000),
        || {
            (tree(5, false), 0u8..5, 0u8..4, any::<bool>(), any::<bool>(), any::<bool>())
                .prop_map(|(tree, root, place, header, existing, zstd)| Itself { tree, root, place, header, existing, zstd })
                .boxed()
        },
        |c, cov| pack_itself(ctx, c, cov),
    );
    ctx.enumerate("open_file_limit", vec![OpenFiles { verb: 0, files: 1100, limit: 1024, zstd: false }], |c, cov| open_files(ctx, c, cov));
    ctx.check(
        "open_files",
        ctx.scale(40, 600),
        || {
            let pack = (1u32..950).prop_map(|files| OpenFiles { verb: 0, files, limit: 1024, zstd: false });
            let unpack = (1u32..1500, 48u64..1024).prop_map(|(files, limit)| OpenFiles { verb: 2, files, limit, zstd: false });
            (prop_oneof![pack, unpack], any::<bool>()).prop_map(|(c, zstd)| OpenFiles { zstd, ..c }).boxed()
        },
        |c, cov| open_files(ctx, c, cov),
    );
}

pub fn c12_cli(ctx: &Ctx) {
    ctx.check(
        "cli",
        ctx.scale(600, 8000),
        || {
            (tree(5, false), prop::bool::weighted(0.7), 0u8..5, any::<bool>(), prop::option::weighted(0.2, prop::sample::select(vec![100usize, 1000, 4096])))
                .prop_map(|(tree, unpack, outcome, header, chunk)| TempCli { tree, unpack, outcome, header, chunk })
                .boxed()
        },
        |c, cov| temp_cli(ctx, c, cov),
    );
    ctx.check(
        "threads",
        ctx.scale(150, 2000),
        || {
            (harm_strategy(), 0u64..8, 2u8..4)
                .prop_map(|(c, k, verb)| Harmed { harm: Harm::Threads(k), verb, ..c })
                .boxed()
        },
        |c, cov| harmed(ctx, c, cov),
    );
}

/// The writes to a file until it is cut or unlinked.
/// (If the process ended while a thread was about to, the unlinking may not have been recorded.)
fn file_log(log: &[Rec], id: u64, ended: bool) -> Result<Vec<Ev>, String> {
    let mut v = vec![];
    let (mut cut, mut gone) = (false, false);
    for r in log.iter().filter(|r| r.id == id) {
        match r.t {
            b'W' if cut => return Err("written to after it was cut".into()),
            b'W' => v.push(Ev::Write { off: r.off, data: r.data.clone() }),
            b'F' => v.push(Ev::Flush),
            b'T' => cut = true,
            b'U' => gone = true,
            _ => {}
        }
    }
    if !gone && !ended {
        return Err("never unlinked".into());
    }
    Ok(v)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EraseCli {
    tree: TreeSpec,
    passes: Option<i32>,
    dir: bool,
    short: Option<usize>,
    big: Option<Data>,
    /// from which one on no thread can be started
    #[serde(default)]
    threads: Option<u64>,
    /// permissions of the files, drawn from this; none if it is 0
    #[serde(default)]
    modes: u32,
    /// the number of passes as it is written, if it is not `passes`
    #[serde(default)]
    odd: Option<String>,
    /// a single file is named by a link to it
    #[serde(default)]
    link: bool,
}

/// Gives the files of a tree various permissions. Returns those that cannot be written to any more.
fn set_modes(root: &Path, t: &Tree, seed: u32, readonly: bool) -> Vec<PathBuf> {
    use std::os::unix::fs::PermissionsExt;
    let mut ro = vec![];
    for (k, (p, x)) in t.iter().enumerate().filter(|_| seed != 0) {
        let r = h64(&[&seed.to_le_bytes()[..], &k.to_le_bytes()].concat()) as usize;
        let files = [0o644, 0o600, 0o755, 0o666, 0o640, 0o4755, 0o444, 0o400];
        let mode = if x.is_some() { files[r % if readonly { 8 } else { 6 }] } else { [0o755, 0o700, 0o775, 0o1777][r % 4] };
        let f = root.join(p);
        std::fs::set_permissions(&f, std::fs::Permissions::from_mode(mode)).unwrap();
        if x.is_some() && std::fs::OpenOptions::new().read(true).write(true).open(&f).is_err() {
            ro.push(p.clone());
        }
    }
    ro
}

fn erase_cli(ctx: &Ctx, c: &EraseCli, cov: &mut Cov) -> Res {
    let w = World::new(ctx);
    let mut t = c.tree.build();
    if let Some(d) = &c.big {
        t.entry("a big file".into()).or_insert_with(|| Some(d.bytes()));
    }
    w.put("by", b"a bystander");
    let mut a = vec!["erase".to_string()];
    if c.dir {
        real_tree(&w.w("src"), &t);
        std::os::unix::fs::symlink(w.w("by"), w.w("src/ a link")).unwrap();
        a.push("src".into());
    } else {
        t.retain(|p, x| x.is_some() && p.components().count() == 1);
        let Some(first) = t.keys().next().cloned() else { return Ok(()) };
        t.retain(|p, _| *p == first);
        real_tree(&w.w("src"), &t);
        if c.link {
            std::os::unix::fs::symlink(w.w("src").join(&first), w.w("ln")).unwrap();
            a.push("./ln".into());
        } else {
            a.push(format!("./src/{}", first.display()));
        }
    }
    let readonly = set_modes(&w.w("src"), &t, c.modes, true);
    if !readonly.is_empty() {
        cov.label("read_only_files");
    }
    let before = w.tree();
    a.push("-f".into());
    match (&c.odd, c.passes) {
        (Some(n), _) if !n.is_empty() => a.push(format!("--passes={n}")),
        (None, Some(n)) => a.push(format!("--passes={n}")),
        _ => {}
    }
    let asked = c.odd.as_deref().map_or(Ok(c.passes.unwrap_or(1)), read_passes);
    let mut cmd = w.cmd(&a);
    cmd.shim = Some(Shim { short: c.short.unwrap_or(0), threads: c.threads, ..Shim::default() });
    let o = cmd.run()?;
    let shown = a.join(" ");
    if asked.is_err() {
        cov.label("unreadable_passes");
        if !o.ok() && c.threads.is_none() && readonly.is_empty() {
            // it may as well be refused
            ensure!(w.tree() == before, "{shown} failed: {}", tree_diff(&w.tree(), &before));
            return Ok(());
        }
    }
    let failed = (c.threads.is_some() || !readonly.is_empty()) && o.code == Some(1);
    ensure!(o.ok() || failed, "{shown} (threads {:?}): {}", c.threads, o.brief());
    ensure!(!failed || w.exists("src"), "{shown} (threads {:?}) failed and removed the directory", c.threads);
    let passes = asked.unwrap_or(1);
    if c.link && !c.dir {
        // what the link leads to is erased, if anything is
        let (p, x) = t.iter().next().unwrap();
        let full = w.w("src").join(p);
        let x = x.clone().unwrap_or_default();
        let (mut want, mut after) = (before, w.tree());
        for f in ["ln".into(), Path::new("src").join(p)] {
            want.remove(&f);
            after.remove(&f);
        }
        ensure!(after == want, "{shown}: {}", tree_diff(&after, &want));
        cov.label("through_a_link");
        if std::fs::read(&full).is_ok_and(|b| b == x) {
            return Ok(());
        }
        ensure!(o.ok(), "{shown} failed, and {p:?} is not as before");
        ensure!(std::fs::symlink_metadata(w.w("ln")).is_err() || !full.exists(), "{shown}: nothing was removed");
        let Some(id) = o.log.iter().find(|r| r.t == b'O' && r.path == full).map(|r| r.id) else {
            fail!("{shown}: {p:?} was never opened");
        };
        let evs = file_log(&o.log, id, true).map_err(|e| format!("{shown}: {p:?}: {e}"))?;
        judge_log(&x, &evs, passes, false).map_err(|e| format!("{shown}: {p:?}: {e}"))?;
        cov.nontrivial();
        return Ok(());
    }
    for (p, x) in &t {
        let Some(x) = x else { continue };
        let full = w.w("src").join(p);
        if failed && std::fs::symlink_metadata(&full).is_ok() {
            ensure!(!readonly.contains(p) || std::fs::read(&full).ok().as_ref() == Some(x), "{shown}: changed {p:?}, which cannot be written to");
            continue;
        }
        let Some(id) = o.log.iter().find(|r| r.t == b'O' && r.path == full).map(|r| r.id) else {
            fail!("{shown}: {p:?} was never opened");
        };
        let evs = file_log(&o.log, id, failed).map_err(|e| format!("{shown}: {p:?}: {e}"))?;
        judge_log(x, &evs, passes, false).map_err(|e| format!("{shown}: {p:?}: {e}"))?;
        if !x.is_empty() {
            cov.nontrivial();
        }
    }
    let mut want = before;
    let mut after = w.tree();
    if failed {
        // some may be erased, and some be about to be
        want.retain(|p, _| !p.starts_with("src"));
        after.retain(|p, _| !p.starts_with("src"));
        cov.label("failed");
    } else if c.dir {
        want.retain(|p, _| !p.starts_with("src"));
    } else {
        want.retain(|p, _| !p.starts_with("src") || p == Path::new("src"));
    }
    ensure!(after == want, "{shown}: {}", tree_diff(&after, &want));
    cov.label(format!("passes_{passes}"));
    Ok(())
}

fn erase_cli_strategy(dir: bool) -> BoxedStrategy<EraseCli> {
    (
        tree(if dir { 7 } else { 2 }, false),
        prop_oneof![3 => Just(None), 12 => (0i32..5).prop_map(Some), 1 => (250i32..300).prop_map(Some)],
        prop::option::weighted(0.3, prop::sample::select(vec![1000usize, 4096, 60_000])),
        prop::option::weighted(0.3, data_of(len_strategy(2))),
        prop::option::weighted(0.15, 0u64..6),
        prop_oneof![1 => Just(0u32), 1 => any::<u32>()],
        odd_passes(),
        prop::bool::weighted(0.2),
    )
        .prop_map(move |(tree, passes, short, mut big, threads, modes, odd, link)| {
            if passes.unwrap_or(0) > 5 {
                big = None;
            }
            let threads = threads.filter(|_| dir);
            EraseCli { tree, passes, dir, short, big, threads, modes, odd, link: link && !dir }
        })
        .boxed()
}

/// What `--erase` of the other commands does to the input.
fn erase_option(ctx: &Ctx, c: &Harmed, cov: &mut Cov) -> Res {
    let s = harm_setup(ctx, c)?;
    let mut inputs: Tree = Tree::new();
    if c.verb == 2 {
        inputs.extend(s.t.iter().map(|(p, b)| (Path::new("src").join(p), b.clone())));
    } else {
        inputs.insert("in".into(), s.w.get("in"));
    }
    let mut cmd = s.w.cmd(&s.args);
    cmd.shim = Some(Shim { short: if c.existing { 0 } else { 3000 }, ..Shim::default() });
    let o = cmd.run()?;
    let shown = s.args.join(" ");
    let asked = if c.verb == 2 { Ok(1) } else { c.odd.as_deref().map_or(Ok(c.passes), read_passes) };
    if asked.is_err() {
        cov.label("unreadable_passes");
        if !o.ok() {
            // it may as well be refused
            for (p, b) in &inputs {
                ensure!(b.as_ref().is_none_or(|b| std::fs::read(s.w.w(p)).is_ok_and(|x| x == *b)), "{shown} failed, and {p:?} is not as before");
            }
            return Ok(());
        }
    }
    ensure!(o.ok(), "{shown}: {}", o.brief());
    for (p, b) in &inputs {
        ensure!(!s.w.exists(p), "{shown}: {p:?} is still there");
        let Some(b) = b else { continue };
        let full = s.w.w(p);
        let Some(id) = o.log.iter().find(|r| r.t == b'O' && r.path == full).map(|r| r.id) else {
            fail!("{shown}: {p:?} was never opened");
        };
        let evs = file_log(&o.log, id, false).map_err(|e| format!("{shown}: {p:?}: {e}"))?;
        judge_log(b, &evs, asked.unwrap_or(1), false).map_err(|e| format!("{shown}: {p:?}: {e}"))?;
        if !b.is_empty() {
            cov.nontrivial();
        }
    }
    cov.label(format!("verb{}_passes{}", c.verb, c.passes.clamp(0, 6)));
    Ok(())
}

fn erase_option_strategy() -> BoxedStrategy<Harmed> {
    (
        0u8..4,
        tree(5, false),
        data_of(prop_oneof![6 => small_len(), 1 => len_strategy(2)].boxed()),
        any::<bool>(),
        prop::bool::weighted(0.2),
        any::<bool>(),
        prop_oneof![10 => 0i32..5, 1 => 5i32..20, 1 => 250i32..300],
        odd_passes(),
    )
        .prop_map(|(verb, tree, mut data, header, zstd, existing, passes, odd)| {
            if passes > 5 {
                data.len %= 2000;
            }
            Harmed { verb, tree, data, harm: Harm::Kill(0), header, zstd, existing, passes, odd, hash: false }
        })
        .boxed()
}

pub fn c13_cli(ctx: &Ctx) {
    ctx.check("cli_option", ctx.scale(500, 6000), erase_option_strategy, |c, cov| erase_option(ctx, c, cov));
    ctx.check("cli", ctx.scale(500, 6000), || erase_cli_strategy(false), |c, cov| erase_cli(ctx, c, cov));
}
pub fn c14_cli(ctx: &Ctx) {
    ctx.enumerate("open_file_limit", vec![OpenFiles { verb: 1, files: 1100, limit: 1024, zstd: false }], |c, cov| open_files(ctx, c, cov));
    ctx.check("open_files", ctx.scale(40, 600), || (1u32..300).prop_map(|files| OpenFiles { verb: 1, files, limit: 1024, zstd: false }).boxed(), |c, cov| open_files(ctx, c, cov));
    ctx.check("cli", ctx.scale(500, 6000), || erase_cli_strategy(true), |c, cov| erase_cli(ctx, c, cov));
}
