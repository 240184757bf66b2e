#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run by hand after editing)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "crates/volaris-tools/src/"
K = "crates/volaris-crypto/src/"
L = "crates/volaris-cli/src/"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, level, note, hook=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook: a["hook_needed"] = hook
    P.append((dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                   why_tests_cant=why, anchors=a), technique, level, note))
X, F = "exploration", "fault_enumeration"
SEEN = "Assurance is that of a search: nothing outside the generated cases is excluded. "
KDFNOTE = "Key derivation is replaced by a keyed hash of all its inputs and parameters so that thousands of cases fit; C04 ties the parameters to the real functions with committed vectors. "

prop("C01", "What was encrypted decrypts to exactly the same bytes",
 "Encrypting any content with any non-empty password and any supported combination of format version, algorithm and key derivation, and decrypting the result with the same password, yields the original bytes exactly. This holds wherever the reader of the plaintext stood before, whatever sizes readers and writers handle at a time, and whether the header is stored in the file or in a file of its own.",
 ["inputs", "configurations", "schedules"],
 "All contents (lengths around every block border, empty included), passwords, version/algorithm/derivation combinations, header placements, and all ways a reader or writer may split its calls.",
 "The tests encrypt a dozen bytes with one password from an in-memory cursor that never splits a read; block borders, several blocks, short reads and detached headers with short bodies are not reached.",
 [T+"encrypt.rs", T+"decrypt.rs", K+"stream.rs", K+"header.rs"],
 [("block loop of encryption", K+"stream.rs: encrypt_file"), ("block loop of decryption", K+"stream.rs: decrypt_file"), ("header placement", T+"encrypt.rs: execute; "+T+"decrypt.rs: execute")],
 "proptest round trip over generated content, configuration and I/O chunking", X,
 SEEN + KDFNOTE + "The stream interface of the crypto crate is exercised through the tools crate and, in C23, on its own.")

prop("C02", "A modified, cut or spliced file never decrypts successfully",
 "If any byte that decryption depends on is altered, or the content is cut, extended, reordered, or spliced with another file, decryption and unpacking report an error and never report success. Every byte written before the error is a prefix of the original content, and unpacking writes no file from such an archive.",
 ["inputs"],
 "All single and compound modifications of header and content of valid files of versions 1 to 5, in stream and memory mode, with embedded and detached headers.",
 "No test decrypts a modified file.",
 [T+"decrypt.rs", T+"unpack.rs", K+"stream.rs", K+"header.rs", K+"cipher.rs", K+"key.rs"],
 [("authentication of each block and of the header as associated data", K+"stream.rs: decrypt_file"), ("which header bytes are authenticated", K+"header.rs: deserialize, create_aad"), ("last-block marker", K+"stream.rs: decrypt_last")],
 "proptest mutation of valid files, plus exhaustive single-byte sweep of small files", X,
 SEEN + KDFNOTE + "Bytes that no reader depends on (unused padding of old versions, other people's keyslots) are excluded by an explicit rule in the check.")

prop("C03", "A wrong password is refused, and nothing is released",
 "Decrypting, unpacking, verifying or managing keys with any password that opens none of the file's keyslots fails, however close it is to a right one. Nothing is written to the output, and the file itself is unchanged.",
 ["inputs"],
 "All passwords and all near misses of them (one bit, prefixes, extensions, padding, case, trailing newline, passwords of deleted slots) on files of all versions.",
 "The tests use one right password and never a wrong one for decryption.",
 [T+"decrypt.rs", T+"key.rs", T+"key/verify.rs", T+"unpack.rs", K+"key.rs"],
 [("keyslot opening", T+"key.rs: decrypt_v5_master_key_with_index; "+K+"key.rs: decrypt_master_key")],
 "proptest over passwords and near misses", X, SEEN + KDFNOTE)

prop("C04", "Files conform to the published format, byte for byte, versions 1 to 5",
 "Every file written can be read by an independent implementation of the format, and every valid file of versions 1 to 5 written by an independent implementation, in stream or memory mode, is read correctly. Keys are derived with the parameters that each version fixes, so that files written by earlier releases still open.",
 ["inputs", "configurations"],
 "All versions, algorithms, modes, derivations and parameters, passwords, contents, 1 to 4 keyslots opened through any of them, header embedded or detached.",
 "The tests compare two fixed files that the same code produced; versions 1 to 3, memory mode and the other key derivations are never read.",
 [K+"header.rs", K+"key.rs", K+"stream.rs", K+"cipher.rs", K+"primitives.rs", T+"encrypt.rs", T+"decrypt.rs"],
 [("header layout per version", K+"header.rs: serialize_v3/v4/v5, deserialize"), ("derivation parameters per version", K+"key.rs: argon2id_hash, balloon_hash"), ("block size and counter", K+"stream.rs; "+K+"primitives.rs: BLOCK_SIZE")],
 "differential testing against an independent implementation, plus golden vectors with the real derivations", X,
 SEEN + "The independent implementation (harness/src/refc.rs) was written from the code's documentation and the published format; it uses the same RustCrypto primitives. " + KDFNOTE)

prop("C05", "Headers survive being written and read, and bind what they must",
 "Reading back a written header of any version gives the same fields and leaves the reader exactly behind the header. The bytes bound to the encrypted content are the same when writing and when reading, and are those that the format fixes.",
 ["inputs"],
 "All field values of all versions, with zero to four keyslots of any derivation.",
 "Only the fixed headers inside two encrypted examples are ever parsed.",
 [K+"header.rs"],
 [("serialisation", K+"header.rs: serialize"), ("parsing", K+"header.rs: deserialize"), ("associated data", K+"header.rs: create_aad, get_size")],
 "proptest round trip and differential against an independent codec", X, SEEN)

prop("C06", "Keyslot operations add, change and remove exactly one password",
 "After any sequence of adding, changing and deleting keys, exactly the passwords that the sequence leaves in place open the file, at most four at a time, and each of them decrypts to the original content. An operation changes one keyslot only and nothing of the content.",
 ["histories", "inputs"],
 "All histories of add, change, delete and verify with right, wrong and repeated passwords on files with 1 to 4 keyslots.",
 "No test runs any of the key operations.",
 [T+"key/add.rs", T+"key/change.rs", T+"key/delete.rs", T+"key/verify.rs", T+"key.rs"],
 [("slot selection and rewriting", T+"key/*.rs: execute")],
 "stateful proptest against a model of the keyslots", X, SEEN + KDFNOTE)

prop("C07", "A refused management operation leaves the file as it was",
 "When a key or header operation fails - because of the password, the state or version of the file, bytes that are no header, or an error while reading - the file keeps its bytes and its length. What the operation would write is decided before anything is written.",
 ["inputs", "fault_sequences"],
 "All key and header operations on valid files, old versions, full and single-slot files, short files and garbage, with read, seek and write errors at any call.",
 "No test makes one of these operations fail.",
 [T+"key/add.rs", T+"key/change.rs", T+"key/delete.rs", T+"header/restore.rs", T+"header/strip.rs", T+"header/dump.rs"],
 [("checks before the single write", T+"key/*.rs; "+T+"header/*.rs")],
 "proptest with injected I/O faults and byte comparison", X, SEEN + KDFNOTE)

prop("C08", "Taking a header off and putting it back loses nothing",
 "A dumped header is exactly the file's header, a stripped file keeps its length and content with only the header blanked, and it does not decrypt on its own. With the dumped header, given separately or restored, it decrypts to the original content, and restoring gives back the original file byte for byte.",
 ["histories", "inputs"],
 "All sequences of dump, strip, restore and decrypt on files of all versions and lengths.",
 "No test runs the header operations.",
 [T+"header/dump.rs", T+"header/strip.rs", T+"header/restore.rs", T+"decrypt.rs"],
 [("copying the header out", T+"header/dump.rs"), ("blanking it", T+"header/strip.rs"), ("writing it back", T+"header/restore.rs")],
 "stateful proptest against a byte model of the file", X, SEEN + KDFNOTE)

prop("C09", "Salts, nonces and keys are chosen afresh every time",
 "Every encryption, and every key added or changed, uses a new random salt, nonce and - for encryption - data key, drawn from the operating system's randomness at full length. Nothing is reused between files, slots or operations, and two encryptions of the same content with the same password share none of these values.",
 ["histories", "inputs"],
 "All sequences of encryptions and key operations with equal or different inputs.",
 "The tests replace these values by constants, so the code that chooses them never runs under test.",
 [K+"primitives.rs", T+"utils.rs", T+"encrypt.rs", T+"key/add.rs", T+"key/change.rs"],
 [("random salts, nonces and keys", K+"primitives.rs: gen_salt, gen_nonce, gen_master_key")],
 "metamorphic proptest: runs with different entropy share nothing; bit census over many runs; injected failures of the source of randomness", X,
 SEEN + "Randomness of the operating system itself is taken as given: it is replaced by a seeded generator of which the check controls every byte.")

prop("C10", "Unpacking what was packed gives back the same tree",
 "Packing any set of directories and unpacking the result elsewhere yields the same directories and files, with the same names and contents, and nothing else. This includes empty files and directories, hidden names, and both compression settings; files that the caller declines are the only ones missing.",
 ["inputs", "configurations"],
 "All trees of files and directories with UTF-8 names, any number of roots given by relative or absolute paths, with and without compression.",
 "One test packs three small files; it does not pass reliably, and unpacking has no test (it is marked as to be written).",
 [T+"pack.rs", T+"unpack.rs", T+"storage.rs"],
 [("archive entries", T+"pack.rs: pack_and_encrypt"), ("extraction", T+"unpack.rs: decrypt_and_unpack"), ("directory walk", T+"storage.rs: read_dir")],
 "proptest tree round trip, in a model storage and on the file system", X,
 SEEN + KDFNOTE + "Names are UTF-8 (others are refused, which is checked to be an error and not a loss); permissions and times are not claimed.", hook="storage entries built out of tree")

prop("C11", "Unpacking never writes outside the chosen directory",
 "Whatever names, types and links the entries of an archive have, unpacking creates, changes and removes nothing outside the directory it was given. Entries that point elsewhere are refused or kept inside.",
 ["inputs"],
 "All archives: entry names with parent references, absolute paths, drive letters, backslashes, control characters, duplicates, link entries, and any order of them.",
 "No test unpacks anything.",
 [T+"unpack.rs", T+"storage.rs"],
 [("zip-slip filter", T+"unpack.rs: decrypt_and_unpack")],
 "proptest over archives built byte by byte, in a model storage and as an unprivileged user on scratch files", X,
 SEEN + "Links that are already in the destination are followed, as the operating system does, and are not generated.", hook="storage entries built out of tree")

prop("C12", "The plaintext temporary archive is overwritten and removed, always",
 "Packing and unpacking put the plaintext archive in one temporary file, which is overwritten over its whole length with random bytes and then zeros, and removed, before they return. This holds when they succeed and when they fail at any point: wrong password, damaged input, refused or unanswered questions, errors while reading or writing.",
 ["fault_sequences", "inputs"],
 "All trees and archives, all outcomes, and an I/O error at any call on any of the files involved except the temporary file's own overwriting.",
 "The in-memory storage of the tests does not look at the temporary file, and no test makes pack or unpack fail.",
 [T+"pack.rs", T+"unpack.rs", T+"overwrite.rs", T+"storage.rs", L+"subcommands/pack.rs", L+"subcommands/unpack.rs"],
 [("wipe and remove at the end", T+"pack.rs: execute; "+T+"unpack.rs: execute"), ("temporary name", T+"storage.rs: create_temp_file")],
 "proptest with fault enumeration over a logging storage, and over recorded system calls of the process", F,
 SEEN + KDFNOTE + "Small cases enumerate every fault position. A process that is killed cannot clean up and is not claimed.", hook="storage entries built out of tree")

prop("C13", "Erasing a file overwrites all of it before it is gone",
 "Erasing overwrites every byte of the file with the asked number of passes of fresh random bytes followed by zeros, in place, before the file is cut or removed. If that cannot be done, an error is reported and the file is not removed as if it had been erased; paths that are directories or missing are refused.",
 ["inputs", "fault_sequences"],
 "All file sizes and pass counts, and an error or short write at any call.",
 "The tests look only at the final content, which a single pass of zeros or a truncation satisfies as well.",
 [T+"overwrite.rs", T+"erase.rs", T+"storage.rs", L+"subcommands/erase.rs"],
 [("passes", T+"overwrite.rs: execute"), ("open without truncating", T+"storage.rs: overwrite_file"), ("removal last", T+"erase.rs: execute")],
 "proptest over logged writes with injected faults; recorded system calls of the process", X,
 SEEN + "Judged is what is written to the file and in what order; what the medium keeps (flash wear levelling, journals, lack of a sync) is not.", hook="storage entries built out of tree")

prop("C14", "Erasing a directory erases every file in it and nothing else",
 "Erasing a directory overwrites every regular file below it, hidden and nested ones included, before removing the whole directory. Links are removed without touching what they point to, nothing outside changes, and if a file cannot be erased an error is reported and the directory is not removed over it.",
 ["inputs", "fault_sequences", "schedules"],
 "All trees with nested, hidden and empty directories, links to inside and outside, faults on any file, and all orders in which the threads of the erasure run.",
 "One test erases two files in a model storage and looks only at which names are left.",
 [T+"erase_dir.rs", T+"erase.rs", T+"storage.rs", L+"subcommands/erase.rs"],
 [("walk and one thread per file", T+"erase_dir.rs: execute"), ("link filter", T+"erase_dir.rs; "+T+"storage.rs: is_symlink")],
 "proptest over trees with injected faults, journal oracle; recorded system calls of the process", X,
 SEEN + "Thread orders are those of the operating system, not enumerated.", hook="storage entries built out of tree")

prop("C15", "The reported hash is the BLAKE3 digest of the whole input",
 "The hash of any input is the BLAKE3 digest of all of its bytes from the beginning, in hexadecimal, wherever the reader stood before and however it splits its reads. An input that cannot be read completely yields an error, never a digest.",
 ["inputs", "schedules", "fault_sequences"],
 "All contents, start positions, read sizes and read errors.",
 "Three fixed strings from a cursor that never splits a read.",
 [T+"hash.rs", T+"hasher.rs"],
 [("rewind and read loop", T+"hash.rs: execute")],
 "differential proptest against one-shot BLAKE3 with generated read splits and faults", X, SEEN)

prop("C16", "An I/O error never turns into a silent loss",
 "Whenever an operation reports success, its complete result has been handed to the writer and is readable; if reading, writing, seeking or flushing any of its files fails for good, it reports an error. Short and interrupted reads and writes are continued, not taken for the end.",
 ["fault_sequences", "inputs"],
 "All operations of the library on generated inputs, and an error, a refused write, a short transfer or an interruption at any I/O call.",
 "The tests' storages never fail and never split a call.",
 [K+"stream.rs", K+"header.rs", T+"encrypt.rs", T+"decrypt.rs", T+"pack.rs", T+"unpack.rs", T+"hash.rs", T+"key/", T+"header/"],
 [("error propagation", "every reader and writer call of the listed files")],
 "proptest with fault injection at every kind of call; success must mean complete output", F,
 SEEN + KDFNOTE, hook="storage entries built out of tree")

prop("C17", "Generated passphrases have the asked words, drawn evenly",
 "A generated passphrase consists of exactly the number of words asked for, joined by hyphens, each from the built-in list. Every word of the list can come up, in every position, with equal chance and independently of the others.",
 ["inputs", "histories"],
 "All word counts and all draws.",
 "No test generates a passphrase.",
 [K+"key.rs", K+"wordlist.lst"],
 [("drawing words", K+"key.rs: generate_passphrase")],
 "proptest on structure, statistical test of uniformity and independence over seeded draws", X,
 SEEN + "The statistical bounds are set so that a right generator fails with a chance below 1e-9 per run.")

prop("C18", "Secrets are not printed and not left in freed memory",
 "Printing or logging a protected value never shows it. When an operation ends, whether it succeeds or fails, the password, and the keys derived from or wrapped by it, have been overwritten in the memory it gives back, and so has the plaintext buffered by a successful operation.",
 ["inputs", "fault_sequences"],
 "All secrets, protected types and operations, on success and on every failure.",
 "No test looks at debug output or memory.",
 [K+"protected.rs", K+"key.rs", K+"stream.rs", T+"decrypt.rs", T+"encrypt.rs", T+"key.rs"],
 [("wiping wrapper", K+"protected.rs"), ("explicit wiping of buffers", K+"stream.rs; "+T+"encrypt.rs; "+K+"key.rs")],
 "proptest under an allocator that searches every freed block", X,
 SEEN + KDFNOTE + "Heap only: stack, registers and swap are not seen. AES round keys and cipher states inside third-party crates, and plaintext handed to a writer, are excluded. Data keys of stream-mode files are looked for after key operations; memory mode decryption hands its plaintext to the writer.")

prop("C19", "The tool destroys only what it was asked to, and only when it is safe",
 "The command-line tool changes, replaces or removes a file only if its arguments or an answer to its question ask for it; a declined question or a refusal leaves every file as it was. Naming one file in two roles is refused before anything is opened for writing, and an input is erased only after the output is complete. If the tool is killed or a system call fails at any point, the input or a complete output still exists.",
 ["inputs", "fault_sequences", "crash_points"],
 "All argument combinations naming equal, linked, existing, missing and directory paths, all answers, and a kill or a failing system call at every point of an operation.",
 "The command-line crate has no tests.",
 [L+"subcommands.rs", L+"subcommands/encrypt.rs", L+"subcommands/decrypt.rs", L+"subcommands/pack.rs", L+"subcommands/unpack.rs", L+"subcommands/erase.rs", L+"cli/prompt.rs", L+"main.rs"],
 [("overwrite question", L+"cli/prompt.rs: overwrite_check"), ("same-file refusal", L+"subcommands/*.rs"), ("erase last", L+"subcommands/*.rs")],
 "proptest over command lines and answers as processes; kill and syscall-failure injection at generated points", F,
 SEEN + KDFNOTE + "Completeness on a crash means written to the operating system; the tool does not sync, and loss of power is not claimed.")

prop("C20", "Damaged or hostile files are refused without crash, hang or flood",
 "Reading any bytes whatsoever as an encrypted file, a header, or an archive - with any password - ends with success or an error: no panic and no endless loop. Reading a file or header takes no memory out of proportion to the bytes given.",
 ["inputs"],
 "All byte strings, in particular structural edits of valid files and archives of all versions, through every operation that reads.",
 "The tests only read what the same code wrote.",
 [K+"header.rs", K+"stream.rs", K+"key.rs", T+"decrypt.rs", T+"unpack.rs", T+"key.rs", T+"header/restore.rs"],
 [("validation of parsed fields", K+"header.rs: deserialize"), ("conversion of key bytes", K+"key.rs: vec_to_arr, decrypt_master_key")],
 "structured fuzzing with panic, processor-time and memory oracles", X, SEEN + KDFNOTE)

prop("C21", "The file-system storage does what it says, and no more",
 "Creating refuses what exists, reading and writing refuse what does not, listing a directory gives every entry below it exactly once, lengths are right, and removing removes exactly the file or tree named. Temporary files are new and empty, lie in the temporary directory, are never shared by two operations, and never replace, follow or empty what already has their name.",
 ["histories"],
 "All sequences of storage calls on any tree of files, directories and links; all draws of the temporary name, taken or free; several threads.",
 "One short call sequence per method on one fixed tree.",
 [T+"storage.rs"],
 [("file-system storage", T+"storage.rs: impl Storage<fs::File> for FileStorage")],
 "stateful proptest against a model of the tree", X, SEEN)

prop("C22", "The key comes from the source asked for, byte for byte",
 "The tool uses exactly the key that its options select: key file or standard input before environment before generated passphrase before prompt, with no byte added, removed or changed. An empty or missing key is refused and nothing is written; a generated passphrase is shown once and opens the file; confirmation that differs is asked again.",
 ["inputs", "configurations"],
 "All keys, sources, decoys in the other sources, and prompt dialogues.",
 "The command-line crate has no tests.",
 [L+"global/states.rs", L+"global/parameters.rs", L+"cli/prompt.rs"],
 [("source selection", L+"global/states.rs: Key::get_secret"), ("prompt", L+"cli/prompt.rs")],
 "proptest over processes on a pseudo-terminal; independent decryption as oracle", X, SEEN + KDFNOTE)

prop("C23", "The cipher interfaces are the named AEADs, used right",
 "The block and stream interfaces produce and accept exactly what the named algorithm with the given key, nonce and associated data defines, for every message, and refuse anything altered. Keys and nonces of unusable length are refused, and the stream counter and last-block marker are those of the format.",
 ["inputs"],
 "All algorithms, keys, nonces, messages, associated data and block sequences.",
 "No test of the crypto crate calls them.",
 [K+"cipher.rs", K+"stream.rs", K+"primitives.rs"],
 [("block interface", K+"cipher.rs"), ("stream interface", K+"stream.rs")],
 "differential proptest against the primitives used directly", X, SEEN + "RustCrypto's primitives are trusted.")

prop("C24", "Memory use does not grow with the size of the file",
 "Encrypting, decrypting and hashing a stream, packing and unpacking a file, and overwriting one to erase it use an amount of memory bounded by a constant, whatever the length of the input.",
 ["inputs"],
 "All input lengths (generated up to tens of MiB, and some past 2^32 bytes) and operations.",
 "No test measures memory or uses a large input.",
 [K+"stream.rs", T+"hash.rs", T+"pack.rs", T+"unpack.rs", T+"overwrite.rs"],
 [("fixed block size", K+"primitives.rs: BLOCK_SIZE")],
 "proptest with peak-allocation measurement", X, SEEN + "Heap allocations of the process are counted by the global allocator.")

prop("C25", "Command-line options do what they say, in any combination and order",
 "For every combination and order of options the tool does what its help says: algorithm, key derivation, header placement, compression, recursion into given directories, erasure with the given passes, printed hashes. What it writes is what the options describe, opens with the key, and its exit status is zero exactly if it did what was asked.",
 ["configurations", "inputs"],
 "All subcommands, option sets, option orders, contents and trees.",
 "The command-line crate has no tests.",
 [L+"cli.rs", L+"subcommands.rs", L+"global/parameters.rs", L+"subcommands/"],
 [("argument definitions", L+"cli.rs: get_matches"), ("parameter decoding", L+"global/parameters.rs")],
 "proptest over processes; independent implementation as oracle", X, SEEN + KDFNOTE)

prop("C26", "Operations side by side do not affect each other",
 "Operations that run at the same time on different files give each the result it gives alone: round trips, archives, directory erasures, key operations and digests. No temporary file, buffer or other state is shared between them.",
 ["schedules", "inputs"],
 "All mixtures of two to five concurrent sequences of operations in one process, on files of their own and a common temporary directory.",
 "The tests run one operation at a time on storages of their own.",
 [T+"storage.rs", T+"pack.rs", T+"unpack.rs", T+"erase_dir.rs", T+"encrypt.rs", T+"decrypt.rs", K+"stream.rs"],
 [("temporary names", T+"storage.rs: create_temp_file"), ("threads of directory erasure", T+"erase_dir.rs: execute")],
 "proptest over concurrent sequences of operations, each judged as if alone", X,
 SEEN + KDFNOTE + "Interleavings are those the operating system produces; they are not enumerated.")

prop("C27", "An encrypted file gives away nothing but its length",
 "Nothing of the content, the password, or the names and contents of packed files stands in what is written, embedded or detached. The header does not depend on the content, outputs of contents of equal length have equal length, equal parts of a content do not look equal in the output, and encrypting the same content again shows no common bytes.",
 ["inputs", "configurations"],
 "All pairs of contents of equal length, repetitive contents, trees, passwords, versions, algorithms, and draws of randomness.",
 "The tests compare outputs with constants; none looks at how two outputs relate.",
 [T+"encrypt.rs", T+"pack.rs", K+"stream.rs", K+"header.rs", K+"primitives.rs"],
 [("a fresh nonce per block", K+"stream.rs: EncryptionStreams"), ("everything of an archive inside the encrypted body", T+"pack.rs: pack_and_encrypt")],
 "metamorphic proptest over pairs of encryptions with controlled randomness, and search for secrets in outputs", X,
 SEEN + KDFNOTE + "Secrecy as such rests on the ciphers; what is decided is that they are used so that nothing bypasses them.", hook="storage entries built out of tree")

exec(open(os.path.join(ROOT, "tools", "extra_props.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "extra_props.py")) else None

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p, ensure_ascii=True) + "\n")
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook"], capture_output=True, text=True).stdout.split()
NA = []
m = {
 "version": 1,
 "setup_cmd": "./check.sh setup",
 "hooks": {"guard": "cfg volaris_verif", "enable": "RUSTFLAGS=--cfg volaris_verif", "source_commits": hook},
 "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']}",
             "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p['id']}",
             "technique": t, "level": l, "level_note": n} for p, t, l, n in P],
 "not_applicable": NA,
 "notes": "check.sh builds the harness crate from /repo's working tree and runs it as an unprivileged user in a scratch directory; a case is replayed with ./check.sh <ID> --replay replays/<file>.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
