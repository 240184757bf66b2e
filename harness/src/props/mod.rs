//! The properties: what each check generates and how it judges.

pub mod arch;
pub mod clip;
pub mod conc;
pub mod conf;
pub mod crypt;
pub mod erase;
pub mod hdr;
pub mod misc;

pub use crate::fw::Ctx;
use arch::Tree;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

/// Where two byte strings first differ.
pub fn diff(a: impl AsRef<[u8]>, b: impl AsRef<[u8]>) -> Option<usize> {
    let (a, b) = (a.as_ref(), b.as_ref());
    a.iter().zip(b).position(|(x, y)| x != y).or((a.len() != b.len()).then(|| a.len().min(b.len())))
}

pub fn tree_diff(got: &Tree, want: &Tree) -> String {
    let show = |x: &Option<Vec<u8>>| match x {
        None => "directory".to_string(),
        Some(b) => format!("{} bytes {:?}", b.len(), String::from_utf8_lossy(&b[..b.len().min(24)])),
    };
    let mut out = vec![];
    for (p, w) in want {
        match got.get(p) {
            None => out.push(format!("missing {p:?} ({})", show(w))),
            Some(g) if g != w => out.push(format!("{p:?} is {} instead of {}", show(g), show(w))),
            _ => {}
        }
    }
    for (p, g) in got {
        if !want.contains_key(p) {
            out.push(format!("unexpected {p:?} ({})", show(g)));
        }
    }
    let n = out.len();
    out.truncate(6);
    format!("{n} differences: {}", out.join("; "))
}

/// A directory of its own under the scratch directory, removed when dropped.
pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new(base: &Path) -> Self {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = base.join(format!("case-{}", N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).expect("scratch");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if self.0.starts_with("/tmp") {
            std::fs::remove_dir_all(&self.0).ok();
        }
    }
}

const PROPS: &[(&str, fn(&Ctx), &str, &str)] = &[
    (
        "C01",
        crypt::c01,
        "proptest draws algorithm, key derivation, password, plaintext lengths around block borders, chunked or short-reading readers and writers, detached or embedded header, and start offsets; each case encrypts and decrypts. Non-trivial: the plaintext is not empty.",
        "exploration",
    ),
    (
        "C02",
        crypt::c02,
        "a valid file (library or reference writer, V1 to V5) is generated and one generated change applied (bit flips, cuts, insertions, block swaps, splices from a sibling file, header fields), plus a sweep over every byte of small files. Non-trivial: the change is one the reader is bound to refuse.",
        "exploration",
    ),
    (
        "C03",
        crypt::c03,
        "a valid file and a list of near misses of its password (one bit, prefix, suffix, padding, case, newline, another slot's) are generated and each is tried on decrypt, verify, key operations or unpack. Non-trivial: at least one wrong password was tried.",
        "exploration",
    ),
    (
        "C04",
        crypt::c04,
        "files written by the library are read by an independent implementation of the format, files of V1 to V5 (stream and memory mode) written by it are read by the library, derived keys are compared over generated passwords and salts, and committed vectors use the real key derivation. Non-trivial: non-empty plaintext, or a derived key compared.",
        "exploration",
    ),
    (
        "C05",
        hdr::c05,
        "headers with generated version, algorithm, mode, salts, nonces and keyslots are written by the library and the reference and parsed back by both. Non-trivial: every case (each compares both directions and the bytes bound to the payload).",
        "exploration",
    ),
    (
        "C06",
        hdr::c06,
        "histories of add, change, delete and verify with generated passwords (present, absent, repeated) on a generated V5 file, compared after each step with a model of slots by opening every slot and decrypting. Non-trivial: the history changes a slot.",
        "exploration",
    ),
    (
        "C07",
        hdr::c07,
        "a generated file, one management operation that must be refused (wrong password, full or last slot, old version, garbage) or an injected I/O fault, and a byte comparison afterwards. Non-trivial: the operation was refused and the file was compared.",
        "exploration",
    ),
    (
        "C08",
        hdr::c08,
        "generated sequences of dump, strip and restore, with decryption by detached header and by restored file, on files of all versions. Non-trivial: a header was taken off, put back, or used detached.",
        "exploration",
    ),
    (
        "C09",
        misc::c09,
        "operation sequences run twice with different entropy and once more with the same; all salts, nonces and wrapped keys are collected and compared, and a bit census is taken over long runs; randomness also fails, for good or for a while, and then the operation fails or still chooses differently each time. Non-trivial: every case that compares at least two independent runs, and every refusal.",
        "exploration",
    ),
    (
        "C10",
        arch::c10,
        "generated trees (names with odd characters, empty and multi-block files, nested and empty directories, links), one or several roots, compression on or off, packed and unpacked in a model storage and on the real file system. Non-trivial: a tree with a file.",
        "exploration",
    ),
    (
        "C11",
        arch::c11,
        "archives written byte by byte with hostile entry names (.., absolute, drive letters, links, backslashes, NUL, duplicates), unpacked into a model storage and, as an unprivileged user, a scratch directory with bait outside. Non-trivial: an entry that points outside or at a link.",
        "exploration",
    ),
    (
        "C12",
        arch::c12,
        "pack and unpack of generated trees with an injected fault at a generated (small cases: every) I/O call, against a model storage that logs every byte of the temporary archive; and the command-line tool under a recorder of its system calls. Non-trivial: the temporary archive held content.",
        "fault_enumeration",
    ),
    (
        "C13",
        erase::c13,
        "generated file sizes, pass counts and faults; the log of writes, flushes and truncation is judged, in a model storage, on the real file system, and for the command-line process under a recorder. Non-trivial: at least 16 bytes were there to erase.",
        "exploration",
    ),
    (
        "C14",
        erase::c14,
        "generated trees with hidden files, nested directories and links, erased in a model storage with injected faults, on the real file system, and by the command-line process under a recorder. Non-trivial: at least two files.",
        "exploration",
    ),
    (
        "C15",
        misc::c15,
        "generated content, reader chunk sizes, start positions and read faults; the digest is compared with an independent one-shot BLAKE3. Non-trivial: more than one byte.",
        "exploration",
    ),
    (
        "C16",
        misc::c16,
        "every operation of the library on a generated case, with an error, zero write, short write or interruption injected at a generated I/O call; success must mean complete and readable output. Non-trivial: the fault was hit.",
        "fault_enumeration",
    ),
    (
        "C17",
        misc::c17,
        "generated word counts, and long runs whose words are counted; randomness that fails. Non-trivial: five words or more, a frequency count, or a refusal.",
        "exploration",
    ),
    (
        "C18",
        misc::c18,
        "generated secrets in every protected type and every operation, run under an allocator that searches each freed or reallocated block for the password, the key and the plaintext; debug output is searched too. Non-trivial: a secret of at least 16 bytes, or an operation that ran.",
        "exploration",
    ),
    (
        "C19",
        clip::c19,
        "command lines with generated names (same file, links, directories, existing outputs), answers and options run as processes; others are killed or given a failing system call at a generated index. Afterwards the whole tree is compared with what was asked for. Non-trivial: a refusal, a declined question, an erase, or a fault that was hit.",
        "fault_enumeration",
    ),
    (
        "C20",
        misc::c20,
        "valid files and archives of all versions with generated structural edits, and random bytes, through every reading operation. Non-trivial: the bytes are not a valid file as written.",
        "exploration",
    ),
    (
        "C21",
        erase::c21,
        "histories of up to 40 storage calls on a scratch directory, compared step by step with a model of the tree. Non-trivial: a removal and a write both succeeded.",
        "exploration",
    ),
    (
        "C22",
        clip::c22,
        "command lines with a key from keyfile, standard input, environment, terminal or --auto, with decoys in the other sources, run as processes on a pseudo-terminal; the output is opened with the expected key by the independent implementation. Non-trivial: the tool ran to its end.",
        "exploration",
    ),
    (
        "C23",
        misc::c23,
        "generated keys, nonces, messages and associated data through the block and stream interfaces, each compared with the RustCrypto primitives used directly, and with one generated change that must be refused. Non-trivial: every case.",
        "exploration",
    ),
    (
        "C24",
        misc::c24,
        "inputs of generated size up to tens of MiB from a generator that stores nothing; the peak of live heap bytes is measured by the allocator. Non-trivial: every case (all inputs exceed the bound).",
        "exploration",
    ),
    (
        "C25",
        clip::c25,
        "command lines with generated subcommand, option set, option order, contents and trees, run as processes; outputs are opened by the independent implementation, which also tells algorithm, key derivation and header placement. Non-trivial: non-empty content, or two entries.",
        "exploration",
    ),
    (
        "C26",
        conc::c26,
        "two to five threads, each with a generated sequence of encryptions, archive round trips, directory erasures, key operations, digests and passphrases on files of its own, started together; each result is judged as if alone. Non-trivial: every case.",
        "exploration",
    ),
    (
        "C27",
        conf::c27,
        "pairs of contents of equal length with equal randomness, the same content with different randomness, contents that repeat themselves, and packed trees; outputs are compared and searched for content, names, digest and password. Non-trivial: at least 16 bytes of content, or a packed tree.",
        "exploration",
    ),
];

pub fn describe(prop: &str) -> (&'static str, &'static str) {
    PROPS.iter().find(|p| p.0 == prop).map(|p| (p.2, p.3)).unwrap_or(("", ""))
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut a = vec![];
    if !matches!(prop, "C13" | "C14" | "C15" | "C17" | "C21" | "C23") {
        a.push(
            "Argon2id and Balloon are replaced by a keyed hash of all their inputs and parameters, so that a derivation \
             takes microseconds; C04 checks the real functions against committed vectors.",
        );
    }
    if matches!(prop, "C12" | "C13" | "C14" | "C19" | "C22" | "C25") {
        a.push("The recorder is an LD_PRELOAD library: it sees what the process asks of libc.");
    }
    if prop != "C09" && prop != "C17" {
        a.push("The system's randomness is replaced by a generator seeded from the case; C09 and C17 judge the use of it.");
    }
    if matches!(prop, "C13" | "C14" | "C12") {
        a.push("What a disk keeps of overwritten blocks is out of reach: what is judged is what is written, and when.");
    }
    a.into_iter().map(String::from).collect()
}

pub fn run(ctx: &std::sync::Arc<Ctx>) -> bool {
    match PROPS.iter().find(|p| p.0 == ctx.prop) {
        Some(p) => {
            (p.1)(ctx);
            true
        }
        None => false,
    }
}

/// `known-findings.json`: entries that still fail; "fixed" entries suppress nothing.
pub fn load_known(s: &str) -> Vec<(String, String)> {
    let v: serde_json::Value = serde_json::from_str(s).expect("known-findings.json");
    v["known"]
        .as_array()
        .into_iter()
        .flatten()
        .map(|e| (e["property"].as_str().unwrap().to_string(), e["signature"].as_str().unwrap().to_string()))
        .collect()
}

pub fn worker(args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("golden") => {
            crypt::make_golden();
            0
        }
        _ => 2,
    }
}
