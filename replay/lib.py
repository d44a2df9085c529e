"""
Infrastructure of the replay part: scratch repositories, generators of metadata
objects together with a plain Python model of their content, and content
snapshots through the public interface of /repo.

Everything happens below a scratch directory that the case creates and removes.
"""
import copy
import os
import random
import shutil
import subprocess
import sys
import tempfile
import uuid as uuidlib

REAL_POPEN = subprocess.Popen


class Violation(Exception):
    def __init__(self, message, finding=None):
        super().__init__(message)
        self.finding = finding


def check(cond, message, finding=None):
    if not cond:
        raise Violation(message, finding)


def same(a, b, message):
    if a != b:
        raise Violation(f"{message}\n   got:      {short(a)}\n   expected: {short(b)}")


def short(v, n=700):
    t = repr(v)
    return t if len(t) <= n else t[:n] + "..."


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vreplay-")
        self.n = 0
        os.environ["HOME"] = self.dir
        os.environ["XDG_CACHE_HOME"] = os.path.join(self.dir, "cache")
        os.environ["GIT_CONFIG_GLOBAL"] = "/dev/null"
        os.environ["GIT_CONFIG_NOSYSTEM"] = "1"
        os.environ["GIT_TERMINAL_PROMPT"] = "0"
        for k in ("GIT_AUTHOR_NAME", "GIT_COMMITTER_NAME"):
            os.environ[k] = "A"
        for k in ("GIT_AUTHOR_EMAIL", "GIT_COMMITTER_EMAIL"):
            os.environ[k] = "a@example.com"
        tempfile.tempdir = os.path.join(self.dir, "tmp")
        os.mkdir(tempfile.tempdir)

    def repo(self, name=None, odd=False):
        self.n += 1
        if name is None:
            name = f"r{self.n}"
            if odd:
                name += odd
        d = os.path.join(self.dir, name)
        g = os.path.join(d, ".git")
        for x in ("objects/info", "objects/pack", "refs/heads", "refs/tags"):
            os.makedirs(os.path.join(g, x))
        with open(os.path.join(g, "HEAD"), "w") as f:
            f.write("ref: refs/heads/main\n")
        with open(os.path.join(g, "config"), "w") as f:
            f.write("[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n"
                    "[uploadpack]\n\tallowAnySHA1InWant = true\n[gc]\n\tauto = 0\n")
        return d

    def remove(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def git(repo, *args, stdin=None, ok=True):
    p = REAL_POPEN(["git", "-P", "--git-dir", os.path.join(repo, ".git"), *args],
                   stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    out, err = p.communicate(stdin)
    if ok and p.returncode != 0:
        raise RuntimeError(f"git {args}: {err.decode()}")
    return out if ok else (p.returncode, out)


def refs(repo):
    return dict(reversed(l.split(" ", 1)) for l in git(repo, "for-each-ref", "--format=%(objectname) %(refname)").decode().splitlines())


def objects(repo):
    return set(git(repo, "cat-file", "--batch-all-objects", "--batch-check=%(objectname)").decode().split())


def exists(repo, h):
    return git(repo, "cat-file", "-e", h, ok=False)[0] == 0


# ---- intercepting commands -------------------------------------------------

class Crash(BaseException):
    pass


class Gate:
    """Counts, records and lets fail the git commands that are started."""

    def __init__(self):
        self.log = []           # argument lists
        self.stdin = []
        self.fail = None        # predicate(index, args) -> None | "fail" | "crash" | "after"
        self.after = None       # callback(index, args) after each successful command
        self.shell = False
        self.stdout = b"some output\n"
        self.stderr = b"something went wrong: \xc3\xa4\n"
        self.code = 3

    def __enter__(self):
        gate = self

        class Popen(REAL_POPEN):
            def __init__(self, args, *a, **kw):
                self._gate_args = args if isinstance(args, (list, tuple)) else [args]
                if kw.get("shell"):
                    gate.shell = True
                words = [os.fspath(x) for x in self._gate_args]
                index = len(gate.log)
                gate.log.append(words)
                self._gate_index = index
                what = gate.fail(index, words) if gate.fail else None
                if what == "crash":
                    raise Crash()
                if what == "fail":
                    script = ("import sys\nif not sys.stdin.closed: sys.stdin.buffer.read()\n"
                              f"sys.stdout.buffer.write({gate.stdout!r})\nsys.stderr.buffer.write({gate.stderr!r})\n"
                              f"import os\nsys.stdout.flush()\nsys.stderr.flush()\n"
                              f"if {gate.code} < 0: os.kill(os.getpid(), {-gate.code})\nsys.exit({gate.code})")
                    if kw.get("stdin") is None and "stdin" not in kw:
                        kw["stdin"] = subprocess.DEVNULL
                    kw["shell"] = False
                    super().__init__([sys.executable, "-S", "-E", "-c", script], *a, **kw)
                else:
                    super().__init__(args, *a, **kw)

            def wait(self, *a, **kw):
                r = super().wait(*a, **kw)
                if gate.after and not getattr(self, "_gate_done", False):
                    self._gate_done = True
                    gate.after(self._gate_index, self._gate_args)
                return r

        self.saved = subprocess.Popen
        subprocess.Popen = Popen
        return self

    def __exit__(self, *a):
        subprocess.Popen = self.saved
        return False


def command(words):
    """the git sub command of an argument list and its arguments"""
    i = 1
    while i < len(words) and words[i].startswith("-"):
        i += 2 if words[i] in ("--git-dir", "-C", "-c") else 1
    return (words[i], words[i + 1:]) if i < len(words) else ("", [])


# ---- generators ----------------------------------------------------------

NAMES = ["a", "b", "ab", "a b", " a", "a ", "c.txt", ".hidden", 'q"uote', '"', '""', "back\\slash", "\\", "\\n", "new\nline",
         "\n", "tab\tx", "\u00fcml\u00e4ut", "\u65e5\u672c", "\U0001f600", "-x", "'", "$HOME", "%s", "*None*", "refs", "a;b", "x\r",
         "nul\x01", "\\\"", "a\\", "\u2028", "#", "{", "..x", "...", "a'b\"c", "\x7f", "-", "~", "0", "00", "\\303\\274", "\u0085"]
TEXTS = ["", "a", "some text", "line\n", "line\nline\n", "\n", "\r\n", "a\r\nb\rc", "\ttab", " ", "\u00fc\u65e5\u672c\U0001f600", "x" * 5000,
         "{\"a\": 1}", "\u2028", "\x00\x01", "'\"\\", "*None*", "trailing  \n\n", "\ufeffbom", "\x0c\x0b\x1c\x85"]
VALUES = [None, True, False, 0, 1, -1, 1.5, 10 ** 20, 1e300, "", "x", "\u00fc\n", [], {}, [1, [2, {"a": None}]], {"a": {"b": [1, 2, 3]}},
          {"": 0}, {"@": {"type": "Reference"}}, "*None*", "\x00"]
STAMPS = ["0", "1", "1234567890.5", "", "\u00fc", "2021-01-01", "time\nstamp"]
VERSIONS = ["v1", "v2", "", "0", "0000000000000000000000000000000000000000", "\u00fc\"\\\n", "unknown", "a/b"]
PREFIXES = ["", "a", "a/b", "ab", "a b/c", "\u00fc/x", "x\"y", "..", "b", " a", "a ", "a/b ", "A", "a\tb", "x\n", "a.b", "b/a"]


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.fresh = 0
        import dataladmetadatamodel.metadata as metadata
        import dataladmetadatamodel.text as text
        import dataladmetadatamodel.filetree as filetree
        import dataladmetadatamodel.datasettree as datasettree
        import dataladmetadatamodel.mtreenode as mtreenode
        import dataladmetadatamodel.metadatarootrecord as mrr
        import dataladmetadatamodel.uuidset as uuidset
        import dataladmetadatamodel.versionlist as versionlist
        from dataladmetadatamodel.metadatapath import MetadataPath
        from dataladmetadatamodel.mapper.reference import Reference
        self.Text, self.Metadata = text.Text, metadata.Metadata
        self.EC, self.MI, self.MIS = (metadata.ExtractorConfiguration, metadata.MetadataInstance, metadata.MetadataInstanceSet)
        self.FileTree, self.DatasetTree, self.MTreeNode = filetree.FileTree, datasettree.DatasetTree, mtreenode.MTreeNode
        self.MRR, self.UUIDSet = mrr.MetadataRootRecord, uuidset.UUIDSet
        self.VersionList, self.TreeVersionList = versionlist.VersionList, versionlist.TreeVersionList
        self.Path, self.Reference = MetadataPath, Reference

    def name(self):
        if self.rng.random() < 0.5:
            return self.rng.choice("abcdef")
        if self.rng.random() < 0.8:
            return self.rng.choice(NAMES)
        return "".join(self.rng.choice("ab\"\\\n\t \u00e9'n0") for _ in range(self.rng.randint(1, 6)))

    def text(self):
        self.fresh += 1
        if self.rng.random() < 0.5:
            return f"text {self.fresh}"
        return self.rng.choice(TEXTS)

    def path(self, depth=3):
        return "/".join(self.name() for _ in range(self.rng.randint(1, depth)))

    def prefix(self):
        return self.rng.choice(PREFIXES)

    def version(self):
        return self.rng.choice(VERSIONS)

    def stamp(self):
        return self.rng.choice(STAMPS)

    def uuid(self):
        # a small pool, such that identifiers repeat
        return uuidlib.UUID(int=self.rng.choice([0, 1, 2, 3, 2 ** 127 + 5]))

    def value(self, depth=2):
        r = self.rng.random()
        if depth and r < 0.2:
            return [self.value(depth - 1) for _ in range(self.rng.randint(0, 3))]
        if depth and r < 0.4:
            return {self.rng.choice(["k", "l", "", "\u00fc", "@"]): self.value(depth - 1) for _ in range(self.rng.randint(0, 3))}
        return self.rng.choice(VALUES)

    def config(self):
        r = self.rng
        return (r.choice(["1", "2", "", "\u00fc"]),
                r.choice([{}, {"p": 1}, {"p": 2}, {"p": 1, "q": [1, {"z": 2}]}, {"q": [1, {"z": 2}], "p": 1}, {"p": None}, {"": []},
                          {"p": "1"}]))

    def run(self):
        r = self.rng
        self.fresh += 1
        ts = r.choice([0, 0.0, 1, 1.5, 1e9, -1.0, 12345.678, self.fresh])
        return (ts, r.choice(["ex1", "ex2", "", "\u00fc", "a.b"]), r.choice(["author", "", "\u00fc"]), r.choice(["a@b", ""]),
                self.config(), r.choice([{"n": self.fresh}, self.value()]))

    # objects: each returns (object, model)
    def make_text(self, depth=0):
        c = self.text()
        return self.Text(c), ("text", c)

    def add_run(self, md, model, run=None):
        ts, ex, a, e, (cv, cp), content = run or self.run()
        md.add_extractor_run(ts, ex, a, e, self.EC(cv, cp), content)
        runs = model[1].setdefault(ex, [])
        entry = (cv, cp, ts, a, e, content)
        for i, old in enumerate(runs):
            if old[0] == cv and old[1] == cp:
                runs[i] = entry
                break
        else:
            runs.append(entry)

    def make_metadata(self, n=None):
        md, model = self.Metadata(), ("metadata", {})
        for _ in range(self.rng.randint(0, 4) if n is None else n):
            self.add_run(md, model)
        return md, model

    def free(self, model, path):
        """can an element be added at path?"""
        if path in model:
            return False
        parts = path.split("/")
        for i in range(1, len(parts)):
            if "/".join(parts[:i]) in model:
                return False
        return not any(p.startswith(path + "/") for p in model)

    def make_mtree(self, n=None):
        t, model = self.MTreeNode(self.Text), ("tree", {})
        for _ in range(self.rng.randint(0, 6) if n is None else n):
            p = self.path()
            if self.free(model[1], p):
                o, m = self.make_text()
                t.add_child_at(o, self.Path(p))
                model[1][p] = m
        for p, q, m in self.twins(model):
            t.add_child_at(self.Text(m[1]), self.Path(q))
            model[1][q] = m
        return t, model

    def twins(self, model):
        """a second directory with the same names and the same content as an existing one"""
        dirs = sorted({p.split("/")[0] for p in model[1] if "/" in p})
        if not dirs or self.rng.random() < 0.5:
            return []
        d = self.rng.choice(dirs)
        new = next(n for n in ("twin", "twin2", "twin3") if self.free(model[1], n))
        return [(p, new + p[len(d):], copy.deepcopy(model[1][p])) for p in list(model[1]) if p.startswith(d + "/")]

    def make_filetree(self, n=None):
        t, model = self.FileTree(), ("tree", {})
        for _ in range(self.rng.randint(0, 4) if n is None else n):
            p = self.path()
            if self.free(model[1], p):
                o, m = self.make_metadata(self.rng.randint(0, 2))
                t.add_metadata(self.Path(p), o)
                model[1][p] = m
        for p, q, m in self.twins(model):
            o = self.Metadata()
            for ex, runs in m[1].items():
                for cv, cp, ts, a, e, content in runs:
                    o.add_extractor_run(ts, ex, a, e, self.EC(cv, cp), content)
            t.add_metadata(self.Path(q), o)
            model[1][q] = m
        return t, model

    def make_mrr(self):
        r = self.rng
        u = self.uuid() if r.random() < 0.85 else None
        v = self.version() if r.random() < 0.85 else None
        md, mm = self.make_metadata() if r.random() < 0.7 else (None, None)
        ft, fm = self.make_filetree() if r.random() < 0.7 else (None, ("tree", {}))
        return self.MRR(u, v, md, ft), ["mrr", u, v, mm, fm]

    def make_datasettree(self, n=None):
        t, model = self.DatasetTree(), ("datasets", {})
        for _ in range(self.rng.randint(0, 3) if n is None else n):
            p = self.rng.choice(["", self.path()])
            if p not in model[1]:
                o, m = self.make_mrr()
                t.add_dataset(self.Path(p), o)
                model[1][p] = m
        return t, model

    def make_versionlist(self, tree=None):
        tree = self.rng.random() < 0.5 if tree is None else tree
        vl = self.TreeVersionList() if tree else self.VersionList()
        model = ("versions", {})
        for _ in range(self.rng.randint(0, 4)):
            self.set_version(vl, model, tree)
        return vl, model

    def set_version(self, vl, model, tree):
        o, m = self.make_datasettree() if tree else self.make_mrr()
        v, p, ts = self.version(), self.prefix(), self.stamp()
        vl.set_versioned_element(v, ts, self.Path(p), o)
        model[1][(v, p)] = (ts, m)
        return v, p

    def make_uuidset(self):
        us, model = self.UUIDSet(), ("uuids", {})
        for _ in range(self.rng.randint(0, 3)):
            u = self.uuid()
            o, m = self.make_versionlist(False)
            us.set_version_list(u, o)
            model[1][u] = m
        return us, model

    KINDS = ("text", "metadata", "mtree", "filetree", "mrr", "datasettree", "versionlist", "treeversionlist", "uuidset")

    def make(self, kind):
        if kind == "treeversionlist":
            return self.make_versionlist(True)
        if kind == "versionlist":
            return self.make_versionlist(False)
        return getattr(self, f"make_{kind}")()

    def load(self, kind, realm, reference):
        """a new object for the given reference"""
        reference = self.Reference.from_json_obj(reference.to_json_obj())
        if kind == "text":
            return self.Text.get_empty_instance(realm, reference)
        if kind == "metadata":
            return self.Metadata(realm, reference)
        if kind == "mtree":
            return self.MTreeNode(self.Text, realm, reference)
        if kind == "mrr":
            return self.MRR.get_empty_instance(realm, reference)
        return {"filetree": self.FileTree, "datasettree": self.DatasetTree, "versionlist": self.VersionList,
                "treeversionlist": self.TreeVersionList, "uuidset": self.UUIDSet}[kind](realm=realm, reference=reference)

    # ---- content through the public interface, normalised
    def snap(self, o):
        if o is None:
            return None
        loaded = o.ensure_mapped()
        try:
            return self._snap(o)
        finally:
            if loaded:
                o.purge()

    def _snap(self, o):
        if isinstance(o, self.Text):
            return ("text", o.content)
        if isinstance(o, self.Metadata):
            out = {}
            for ex, iset in o.extractor_runs:
                out[ex] = runs = []
                for i in iset:
                    runs.append((i.configuration.version, dict(i.configuration.parameter), i.time_stamp, i.author_name,
                                 i.author_email, i.metadata_content))
            return norm(("metadata", out))
        if isinstance(o, self.DatasetTree):
            return norm(("datasets", {str(p): self.snap(e) for p, e in self.dataset_items(o)}))
        if isinstance(o, (self.FileTree, self.MTreeNode)):
            out = {}
            for p, e in o.get_paths_recursive():
                check(str(p) not in out, f"path {str(p)!r} is reported twice")
                out[str(p)] = self.snap(e)
            return norm(("tree", out))
        if isinstance(o, self.MRR):
            ft = o.get_file_tree()
            return norm(["mrr", o.dataset_identifier, o.dataset_version, self.snap(o.get_dataset_level_metadata()),
                         ("tree", {}) if ft is None else self.snap(ft)])
        if isinstance(o, self.VersionList):
            out = {}
            for v, (ts, p, e) in o.versioned_elements:
                check((v, str(p)) not in out, f"version {v!r} {str(p)!r} is reported twice")
                out[(v, str(p))] = (ts, self.snap(e))
            return ("versions", out)
        if isinstance(o, self.UUIDSet):
            out = {}
            for u in list(o.uuids()):
                check(u not in out, f"identifier {u} is reported twice")
                out[u] = self.snap(o.get_version_list(u))
            return ("uuids", out)
        raise AssertionError(f"unexpected object {o!r}")

    def dataset_items(self, o):
        marker = ".datalad_metadata_root_record"
        for p, e in o.get_paths_recursive():
            check(p.parts[-1] == marker, f"unexpected path in dataset tree: {str(p)!r}")
            yield "/".join(p.parts[:-1]), e


def norm(m):
    """order of runs and spelling of numbers do not matter, an empty file tree is absent"""
    if isinstance(m, tuple) and m and m[0] == "metadata":
        return ("metadata", {ex: sorted(map(repr, map(freeze, runs))) for ex, runs in m[1].items()}) \
            if any(not isinstance(x, str) for runs in m[1].values() for x in runs) else m
    if isinstance(m, tuple) and m and m[0] in ("tree", "datasets"):
        return (m[0], {k: norm(v) for k, v in m[1].items()})
    if isinstance(m, tuple) and m and m[0] == "versions":
        return ("versions", {k: (ts, norm(v)) for k, (ts, v) in m[1].items()})
    if isinstance(m, tuple) and m and m[0] == "uuids":
        return ("uuids", {k: norm(v) for k, v in m[1].items()})
    if isinstance(m, list) and m and m[0] == "mrr":
        return ["mrr", m[1], m[2], norm(m[3]), norm(m[4])]
    return m


def freeze(v):
    if isinstance(v, dict):
        return ("dict", tuple(sorted((repr(k), freeze(x)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (("list",) if isinstance(v, list) else ()) + tuple(freeze(x) for x in v)
    return v


def copy_model(m):
    import copy
    return copy.deepcopy(m)
