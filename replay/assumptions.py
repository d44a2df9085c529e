"""
Cross-checks the assumed contracts (pyvc/gitmodel.py, pyvc/externals.py) against the installed git and Python on
samples. Independent of /repo. Prints one line of JSON: {"checked": n, "failed": [statement, ...]}.
"""
import copy
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile
from pathlib import PurePosixPath

ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\a": "\\a", "\b": "\\b", "\f": "\\f", "\v": "\\v"}
ALPHA = ["a", "b", "Z", "0", " ", "-", ".", "'", '"', "\\", "\t", "\n", "\r", "\x0b", "\x0c", "\x07", "\x1c", "\x85",
         "\u2028", "\u00e9", "\u20ac", "\U0001f600", "*", "?", ":", "$", "`", "%", "~", "#", "=", ",", "{", "\x7f", "\x01"]
failed, checked = [], 0


def expect(statement, ok, detail=""):
    global checked
    checked += 1
    if not ok:
        failed.append(f"{statement} {detail}"[:300])


def git(d, *args, data=b""):
    return subprocess.run(["git", "-P", "--git-dir", d + "/.git", *args], input=data, stdout=subprocess.PIPE,
                          stderr=subprocess.PIPE)


def blob_id(data):
    return hashlib.sha1(b"blob %d\0" % len(data) + data).hexdigest()


def text(rnd, n=12):
    return "".join(rnd.choice(ALPHA) for _ in range(rnd.randint(0, n)))


def quoted(name):
    return '"' + "".join(ESC.get(c, c) for c in name) + '"'


def unquoted(s):
    """what git prints in quotes, see the section core.quotePath of git-config"""
    out, i, s = bytearray(), 1, s.encode()
    back = {ord(v[1]): ord(k) for k, v in ESC.items()}
    while i < len(s) - 1:
        if s[i] != 0x5c:
            out.append(s[i])
            i += 1
        elif s[i + 1] in back:
            out.append(back[s[i + 1]])
            i += 2
        else:
            out.append(int(s[i + 1:i + 4], 8))
            i += 4
    return out.decode()


def blobs(d, rnd):
    for _ in range(6):
        c = text(rnd, 30).encode() + (b"\r\n" if rnd.random() < .3 else b"")
        r = git(d, "hash-object", "-w", "--stdin", data=c)
        h = r.stdout.decode().splitlines()
        expect("hash-object prints the id, and nothing else", r.returncode == 0 and h == [blob_id(c)], repr(c))
        expect("the id of a blob is the SHA1 of header and content, 40 digits", len(h[0]) == 40)
        expect("show delivers the bytes", git(d, "show", h[0]).stdout == c, repr(c))
        expect("cat-file -p delivers the bytes", git(d, "cat-file", "-p", h[0]).stdout == c)
        expect("cat-file -e succeeds for objects", git(d, "cat-file", "-e", h[0]).returncode == 0)
        r = git(d, "ls-tree", h[0])
        expect("ls-tree of a blob fails", r.returncode != 0)
    no = "%040x" % rnd.getrandbits(160)
    for a in (["show", no], ["cat-file", "-p", no], ["ls-tree", no]):
        r = git(d, *a)
        expect(f"{a[0]} of an unknown object fails with a message", r.returncode != 0 and r.stderr != b"" and not r.stdout)
    expect("cat-file -e fails for unknown objects", git(d, "cat-file", "-e", no).returncode != 0)
    n, files = rnd.randint(1, 5), []
    with tempfile.TemporaryDirectory() as t:
        expect("names of temporary directories contain no line break", "\n" not in t)
        for i in range(n):
            c = text(rnd, 30).encode() + b"\r\n"
            open(f"{t}/{i:08}", "wb").write(c)
            files.append((f"{t}/{i:08}", c))
        r = git(d, "hash-object", "-w", "--no-filters", "--stdin-paths", data="\n".join(f for f, _ in files).encode())
        expect("hash-object --stdin-paths prints the ids in the order of the paths",
               r.stdout.decode().splitlines() == [blob_id(c) for _, c in files])
        r = git(d, "hash-object", "-w", "--no-filters", "--stdin-paths", data=(files[0][0] + "\n" + t + "/none").encode())
        expect("hash-object fails if a file is missing", r.returncode != 0)


def trees(d, rnd):
    for _ in range(6):
        names = {text(rnd, 6) for _ in range(rnd.randint(0, 5))}
        names = sorted(x for x in names if x not in ("", ".", "..") and x.strip() and "/" not in x)
        entries = [("100644", "blob", blob_id(x.encode()), x) for x in names]
        spec = "".join(f"{m} {t} {h}\t{quoted(x) if any(c in x for c in ESC) else x}\n" for m, t, h, x in entries)
        r = git(d, "mktree", "--missing", data=spec.encode())
        expect("mktree --missing accepts entries that are not stored, and prints the id", r.returncode == 0
               and len(r.stdout.decode().splitlines()) == 1, repr(names) + r.stderr.decode())
        if r.returncode:
            continue
        h = r.stdout.decode().splitlines()[0]
        again = git(d, "mktree", "--missing", data=("".join(reversed(spec.splitlines(True)))).encode()) \
            if "\x85" not in spec and "\u2028" not in spec and "\r" not in spec and "\x0c" not in spec \
            and "\x0b" not in spec and "\x1c" not in spec else r
        expect("the id of a tree does not depend on the order of the entries", again.stdout == r.stdout, repr(names))
        for cmd in (["ls-tree", h], ["cat-file", "-p", h]):
            got = []
            for line in git(d, *cmd).stdout.decode().split("\n")[:-1]:
                head, tab, name = line.partition("\t")
                expect("entries are printed as <mode> <type> <id><tab><name>", tab == "\t" and len(head.split(" ")) == 3)
                if name.startswith('"'):
                    expect("quoted names end with a quote and have no tab or line break", name.endswith('"')
                           and len(name) >= 2 and "\t" not in name)
                    got.append((*head.split(" "), unquoted(name)))
                else:
                    expect("unquoted names contain none of quote, backslash, tab, line break and are ascii",
                           not any(c in name for c in '"\\\t\n') and name.isascii())
                    got.append((*head.split(" "), name))
            expect(f"{cmd[0]} prints exactly the entries", sorted(got) == sorted(entries), repr(names))


def references(d, rnd):
    h = [git(d, "mktree", data=b"").stdout.decode().strip(),
         git(d, "hash-object", "-w", "--stdin", data=b"x").stdout.decode().strip()]
    name = f"refs/datalad/x-{rnd.getrandbits(30)}"
    f = "--format=%(refname)"
    expect("for-each-ref prints nothing for unknown references", git(d, "for-each-ref", f, name).stdout == b"")
    for x in h:
        expect("update-ref sets references to trees and blobs", git(d, "update-ref", name, x).returncode == 0)
        expect("references are resolved", git(d, "cat-file", "-p", name).returncode == 0)
        expect("for-each-ref prints the name", git(d, "for-each-ref", f, name).stdout.decode().splitlines() == [name])
    no = "%040x" % rnd.getrandbits(160)
    expect("update-ref to an unknown object fails", git(d, "update-ref", name, no).returncode != 0)
    expect("a failed update-ref changes nothing", git(d, "show", name).stdout == b"x")
    expect("update-ref -d deletes", git(d, "update-ref", "-d", name).returncode == 0
           and git(d, "for-each-ref", f, name).stdout == b"")


def fetch(d, e, rnd):
    tree = git(d, "mktree", data=f"100644 blob {git(d, 'hash-object', '-w', '--stdin', data=b'y').stdout.decode().strip()}\tn\n".encode())
    h = tree.stdout.decode().strip()
    git(d, "update-ref", "refs/datalad/t", h)
    r = git(e, "fetch", d, "-f", "--no-tags", "--no-recurse-submodules", "refs/datalad/t:refs/datalad/t")
    expect("fetch creates the reference", r.returncode == 0
           and git(e, "for-each-ref", "--format=%(objectname)", "refs/datalad/t").stdout.decode().strip() == h, r.stderr.decode())
    expect("fetch makes all reachable objects available", git(e, "show", "refs/datalad/t:n").stdout == b"y")
    r = git(e, "fetch", d, "-f", "--no-tags", "--no-recurse-submodules", "refs/datalad/none:refs/datalad/t")
    expect("fetch of an unknown reference fails and changes nothing", r.returncode != 0
           and git(e, "for-each-ref", "--format=%(objectname)", "refs/datalad/t").stdout.decode().strip() == h)


def value(rnd, depth=3):
    k = rnd.randint(0, 6 if depth else 4)
    return [None, True, rnd.randint(-9, 9), rnd.random(), text(rnd),
            None, None][k] if k < 5 else ([value(rnd, depth - 1) for _ in range(rnd.randint(0, 3))] if k == 5 else
                                          {text(rnd, 4): value(rnd, depth - 1) for _ in range(rnd.randint(0, 3))})


def library(rnd):
    for _ in range(40):
        v = value(rnd)
        expect("json.loads is inverse to json.dumps", json.loads(json.dumps(v)) == v, repr(v))
        expect("the text is determined by the value", json.dumps(v) == json.dumps(copy.deepcopy(v)))
        a, b = ["".join(rnd.choice("/./ab\n") for _ in range(rnd.randint(0, 5))) for _ in "ab"]
        p, q = PurePosixPath(a), PurePosixPath(b)
        el = [x for x in a.split("/") if x not in ("", ".")]
        expect("elements of a path", list(p.parts[1 if p.anchor else 0:]) == el, repr(a))
        expect("only texts that start with a slash are absolute", p.is_absolute() == a.startswith("/"), repr(a))
        expect("joining with an absolute path drops the first one",
               (p / q).parts == (q.parts if q.is_absolute() else p.parts + q.parts), repr((a, b)))
        expect("joining separated texts is inverse to splitting", "/".join(a.split("/")) == a)
    expect("a killed process has a return code different from 0",
           subprocess.run(["sh", "-c", "kill -9 $$"]).returncode != 0)
    r = subprocess.run([sys.executable, "-c", "import sys; sys.stdout.write(repr(sys.argv[1:]))", "a b", "$x;`y`", "'"],
                       stdout=subprocess.PIPE)
    expect("argument vectors are passed unchanged", r.stdout.decode() == repr(["a b", "$x;`y`", "'"]))


def main():
    rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
    for v in [x for x in os.environ if x.startswith("GIT_")]:
        del os.environ[v]
    with tempfile.TemporaryDirectory() as t:
        for x in "de":
            subprocess.run(["git", "init", "-q", f"{t}/{x}"], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            blobs(t + "/d", rnd)
            trees(t + "/d", rnd)
            references(t + "/d", rnd)
            fetch(t + "/d", t + "/e", rnd)
            library(rnd)
        except Exception as e:
            failed.append(f"{type(e).__name__}: {e}"[:300])
    print(json.dumps({"checked": checked, "failed": failed}))


main()
