#!/usr/bin/env python3
"""Mutation campaign (by hand; no check uses it): textual mutants of /repo's sources, each run
against the checks that ought to notice, in copies under /tmp/mut.
  mutate.py list                 count mutants per file
  mutate.py run OUT [-j N] [-f FILESUBSTR] [-n MAX] [-s SEED]
Survivors are written to OUT with a diff line each."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
R = "/repo/crates/"
T, K, L = "volaris-tools/src/", "volaris-crypto/src/", "volaris-cli/src/"
MAP = {
 K+"stream.rs": "C01 C23 C02 C04 C16 C18 C24 C20", K+"header.rs": "C05 C04 C02 C20 C16 C03 C06 C07", K+"key.rs": "C04 C17 C03 C18 C20 C06 C22",
 K+"cipher.rs": "C23 C18 C01", K+"primitives.rs": "C09 C23 C04 C01", K+"protected.rs": "C18 C22",
 T+"encrypt.rs": "C01 C04 C09 C16 C18 C24", T+"decrypt.rs": "C01 C02 C04 C03 C16 C18 C20 C24",
 T+"key.rs": "C06 C03 C04 C07 C18 C16 C20", T+"key/add.rs": "C06 C07 C03 C09 C18 C16", T+"key/change.rs": "C06 C07 C03 C09 C18 C16",
 T+"key/delete.rs": "C06 C07 C03 C18 C16", T+"key/verify.rs": "C06 C03 C16 C18", T+"header.rs": "C08 C07", T+"header/dump.rs": "C08 C16 C07",
 T+"header/strip.rs": "C08 C07 C16", T+"header/restore.rs": "C08 C07 C16 C20",
 T+"pack.rs": "C10 C12 C16 C24 C02 C19 C25", T+"unpack.rs": "C10 C11 C12 C16 C20 C02 C24 C25 C19",
 T+"overwrite.rs": "C13 C12 C14", T+"erase.rs": "C13 C14", T+"erase_dir.rs": "C14", T+"hash.rs": "C15 C16 C25", T+"hasher.rs": "C15 C25",
 T+"storage.rs": "C21 C10 C13 C14 C12 C11 C19", T+"utils.rs": "C09 C01",
}
for f in "subcommands subcommands/encrypt subcommands/decrypt subcommands/pack subcommands/unpack subcommands/erase subcommands/hashing cli cli/prompt main global global/states global/parameters global/structs".split():
    MAP[L+f+".rs"] = "C25 C19 C22 C13 C14 C12 C10"

def mutants(path):
    src = open(path).read()
    m = re.search(r"#\[cfg\(test\)\]\s*(pub )?mod ", src)
    cut = m.start() if m else -1
    if path.endswith("tools/src/storage.rs"): cut = min(x for x in (src.find("IMFile"), src.find("InMemory")) if x > 0)
    lines = (src if cut < 0 else src[:cut]).split("\n")
    out = []
    def sub(i, a, b, what):
        if a != b: out.append((i, i + 1, [b], what))
    skip = re.compile(r"^\s*(//|#\[|use |pub use |mod |pub mod |\*|/\*)")
    i = 0
    while i < len(lines):
        l = lines[i]
        if skip.match(l) or "Read + " in l or "Write + " in l or not l.strip(): i += 1; continue
        # numbers
        for m in re.finditer(r"(?<![\w.\[x])(\d+)(?![\w.]|\.\.)", l):
            if '"' in l[:m.start()] and l[:m.start()].count('"') % 2: continue
            n = int(m.group(1))
            sub(i, l, l[:m.start()] + str(n + 1) + l[m.end():], "num+1")
            if n > 0: sub(i, l, l[:m.start()] + str(n - 1) + l[m.end():], "num-1")
        for a, b in [(" == ", " != "), (" != ", " == "), (" < ", " <= "), (" > ", " >= "), (" <= ", " < "), (" >= ", " > "), (" && ", " || "), (" || ", " && "),
                     (" + ", " - "), (" - ", " + "), (" / ", " * "), (" % ", " / "), ("true", "false"), ("false", "true"), ("..=", ".."), (".is_some()", ".is_none()"), (".is_none()", ".is_some()"),
                     (".is_ok()", ".is_err()"), (".is_err()", ".is_ok()"), ("if !", "if "), ("!is_", "is_"), ("StreamMode", "MemoryMode"), ("MemoryMode", "StreamMode"), (".filter(|", ".skip_while(|"), ("SeekFrom::Start", "SeekFrom::Current"), ("write_all(", "write("), ("read_exact(", "read("), ("create_new(true)", "create(true)"), (".rewind()", ".stream_position().map(|_| ())")]:
            for m in re.finditer(re.escape(a), l):
                if l[:m.start()].count('"') % 2: continue
                sub(i, l, l[:m.start()] + b + l[m.end():], a.strip() + "->" + b.strip())
        m = re.match(r"^(\s*)(?:\} else )?if (?!let)(.*) \{$", l)
        if m:
            pre = l[:l.index("if ")]
            sub(i, l, pre + "if true || (" + m.group(2) + ") {", "if true")
            sub(i, l, pre + "if false && (" + m.group(2) + ") {", "if false")
        # statements
        if re.match(r"^\s*(?!let |return|\}|pub |fn |const |static |impl|struct|enum|type |break|continue|\.|\)|else|match |if |for |while |loop)[a-zA-Z_*&(]", l) and (i == 0 or lines[i-1].rstrip().endswith((";", "{", "}", ")")) or not lines[i-1].strip()):
            j, d = i, 0
            while j < len(lines):
                d += sum(lines[j].count(c) for c in "([{") - sum(lines[j].count(c) for c in ")]}")
                if d < 0: break
                if d == 0 and lines[j].rstrip().endswith(";"):
                    body = lines[i:j+1]
                    if "=>" not in l:
                        out.append((i, j + 1, ["// deleted"], "delete"))
                        t = "\n".join(body)
                        if t.rstrip().endswith("?;"):
                            # drop the error only
                            s = t.rstrip()[:-2]
                            ind = re.match(r"\s*", t).group(0)
                            out.append((i, j + 1, (ind + "let _ = " + s.strip() + ";").split("\n"), "ignore error"))
                    break
                if d == 0 and lines[j].rstrip().endswith("}"): break
                j += 1
                if j - i > 15: break
        i += 1
    if ORDER: out = order(lines, skip)
    return src, lines, out

ORDER = "--order" in sys.argv

def span(lines, i):
    # the statement that starts in line i
    j, d = i, 0
    while j < len(lines) and j - i < 25:
        d += sum(lines[j].count(c) for c in "([{") - sum(lines[j].count(c) for c in ")]}")
        if d < 0: return None
        if d == 0 and lines[j].rstrip().endswith((";", "}")): return j + 1
        j += 1
    return None

def order(lines, skip):
    """Statements in another order, done twice, or left out together with all that follow."""
    out = []
    start = re.compile(r"^\s{4,}(?!\}|pub |fn |const |static |impl|struct|enum|type |\.|\)|else|#|//)[a-zA-Z_*&(]")
    for i, l in enumerate(lines):
        if not start.match(l) or skip.match(l): continue
        if i and not (lines[i-1].rstrip().endswith((";", "{", "}")) or not lines[i-1].strip() or lines[i-1].lstrip().startswith("//")): continue
        j = span(lines, i)
        if j is None: continue
        k = j
        while k < len(lines) and (not lines[k].strip() or lines[k].lstrip().startswith("//")): k += 1
        ind = re.match(r"\s*", l).group(0)
        if k < len(lines) and start.match(lines[k]) and re.match(r"\s*", lines[k]).group(0) == ind:
            e = span(lines, k)
            if e is not None and not l.lstrip().startswith(("return", "break", "continue")):
                out.append((i, e, lines[k:e] + lines[i:j], "swap"))
        if lines[j-1].rstrip().endswith(";") and not l.lstrip().startswith(("return", "break", "continue", "let mut ")):
            out.append((i, j, lines[i:j] + lines[i:j], "twice"))
            out.append((i, j, lines[i:j] + [ind + "if true { return Ok(()); }"], "early Ok"))
    return out

def all_mutants(filt):
    v = []
    for f in sorted(MAP):
        if filt and filt not in f: continue
        p = R + f
        if not os.path.exists(p): continue
        src, lines, out = mutants(p)
        rest = src[len("\n".join(lines)):]
        for a, b, new, what in out:
            v.append((f, a, b, new, what, "\n".join(lines[:a] + new + lines[b:]) + rest, "\n".join(lines[a:b])))
    return v

def setup(w):
    d = f"/tmp/mut/w{w}"
    if not os.path.exists(d):
        os.makedirs(d)
        subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True)
        os.makedirs(d + "/verif")
        for x in ("harness", "shim", "vendor", "check.sh", "known-findings.json", "target"):
            subprocess.run(["cp", "-a", "/verif/" + x, d + "/verif/"], check=True)
        for root, _, fs in os.walk(d + "/verif/harness"):
            for f in fs:
                if f.endswith((".rs", ".toml")):
                    p = os.path.join(root, f); s = open(p).read()
                    if "/repo/" in s: open(p, "w").write(s.replace("/repo/", d + "/repo/"))
    return d

def work(w, q, res, lock, out):
    d = setup(w)
    env = dict(os.environ, VH_SCALE=os.environ.get("VH_SCALE", "0.3"))
    while True:
        try: k, (f, a, b, new, what, text, old) = q.get_nowait()
        except queue.Empty: return
        p = f"{d}/repo/crates/{f}"
        orig = open(R + f).read()
        open(p, "w").write(text)
        verdict, by = "SURVIVED", ""
        for c in MAP[f].split():
            r = subprocess.run([d + "/verif/check.sh", c], env=env, capture_output=True, text=True, timeout=3000)
            if r.returncode == 1: verdict, by = "killed", c; break
            if r.returncode != 0:
                verdict, by = ("nobuild" if "does not build" in r.stdout else "ERROR"), c; break
        open(p, "w").write(orig)
        with lock:
            with open(out, "a") as o:
                o.write(json.dumps(dict(k=k, file=f, line=a + 1, what=what, verdict=verdict, by=by, old=old, new="\n".join(new))) + "\n")

def main():
    args = sys.argv[1:]
    opt = lambda n, d: args[args.index(n) + 1] if n in args else d
    ms = all_mutants(opt("-f", ""))
    if args[0] == "list":
        from collections import Counter
        for f, n in Counter(m[0] for m in ms).items(): print(n, f)
        print(len(ms)); return
    idx = list(enumerate(ms))
    random.Random(int(opt("-s", "1"))).shuffle(idx)
    idx = idx[: int(opt("-n", "100000"))]
    out = args[1]
    done = set()
    if os.path.exists(out): done = {tuple(json.loads(l)[x] for x in ("file", "line", "what", "new")) for l in open(out)}
    q = queue.Queue()
    for x in idx:
        f, a, b, new, what = x[1][:5]
        if (f, a + 1, what, "\n".join(new)) not in done: q.put(x)
    lock = threading.Lock()
    ts = [threading.Thread(target=work, args=(w, q, None, lock, out)) for w in range(int(opt("-j", "4")))]
    [t.start() for t in ts]; [t.join() for t in ts]
main()
