prop = "C22"
needs = "Typing a new password whose confirmation differs only in the case of its letters."
breaks = "Such a confirmation is accepted, and the file encrypted with what was typed first."
edits = [("volaris-cli/src/cli/prompt.rs", "        if input == input_validation && !input.is_empty() {\n", "        if input.eq_ignore_ascii_case(&input_validation) && !input.is_empty() {\n")]
cli = r'''
echo content > in
cat > typist.py <<'P'
import os, pty, sys, time, select
v, lines = sys.argv[1], ["Secret", "secret", "right", "right"]
pid, fd = pty.fork()
if pid == 0:
    os.execv(v, [v, "encrypt", "in", "enc"])
out = b""
asked = 0
while True:
    try:
        d = os.read(fd, 1000)
    except OSError:
        break
    if not d:
        break
    out += d
    while out.lower().count(b"password: ") > asked:
        asked += 1
        time.sleep(0.1)
        if lines:
            os.write(fd, lines.pop(0).encode() + b"\n")
os.waitpid(pid, 0)
P
python3 typist.py "$V"
VOLARIS_KEY=right "$V" decrypt enc out || bad "a confirmation that differs was accepted"
cmp in out
'''
