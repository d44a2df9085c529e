"""
The assumed contract of the git commands that /repo executes (ghost state: the
objects and references of each repository). Trusted; replay/assumptions.py
cross-checks it against the installed git.
"""
import z3

from . import builtins_ as bi
from . import loops
from .core import (
    B, I, MISSING, S, Comp, HList, Lit, Obj, PyRaise, Unsupported, is_term,
)
from .externals import LinesV, match, needs_quote, print_name
from .builtins_ import HomV, JoinV
from .interp import BytesV, FmtStr

ESC = {'"': '\\"', "\\": "\\\\", "\n": "\\n", "\t": "\\t", "\r": "\\r", "\a": "\\a", "\b": "\\b", "\f": "\\f", "\v": "\\v"}


class GObj:
    """a stored git object. blob: payload is a text; tree: payload is an HList
    of tuples (mode, type, hash, name)"""

    def __init__(self, realm, kind, hash_, payload):
        self.realm = realm
        self.kind = kind
        self.hash = hash_
        self.payload = payload

    def subst(self, ctx, var, t):
        s = ctx.subst
        return GObj(s(self.realm, var, t), self.kind, s(self.hash, var, t), s(self.payload, var, t))

    def __repr__(self):
        return f"GObj({self.realm},{self.kind},{self.hash})"


class Git:
    def __init__(self, k, faults=False, fail_only=None):
        self.k = k
        self.it = k.it
        self.ctx = k.ctx
        self.ext = k.it.externals
        self.ext.git = self
        self.store = HList()
        self.refs = HList()
        self.store.alloc = self.refs.alloc = 0
        self.faults = faults
        self.fail_only = fail_only
        self.unknown = None         # hook(realm, cmd, ref) -> result for objects that are not known
        self.bad_commands = []
        self.ext.assumptions.add(
            "git: hash-object/mktree store the given bytes/entries and print their id (blob ids are determined by the "
            "content); show/cat-file/ls-tree print the stored content of exactly the given object or fail; update-ref "
            "moves exactly the given reference; fetch makes the object available; a command that fails changes no "
            "reference; the order of tree entries is not modelled")

    # ------------------------------------------------------------ helpers
    def same(self, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        a, b = bi.term(a), bi.term(b)
        if a.eq(b):
            return True
        e = a == b
        if self.ctx.entails(e):
            return True
        if not self.ctx.feasible(e):
            return False
        return self.ctx.branch(e)

    def proc(self, rc, out, err=None):
        return Obj("CompletedProcess", {"returncode": rc, "stdout": out, "stderr": err if err is not None else BytesV("")})

    def lines(self, *xs):
        return BytesV(LinesV([Lit(x) for x in xs]))

    def find(self, realm, ref):
        segs = self.ctx.peek(self.store, "segs")
        for s in reversed(segs):
            if isinstance(s, Lit):
                if self.same(s.v.realm, realm) and self.same(s.v.hash, ref):
                    return s.v
            else:
                o = self.find_in_loop(s, realm, ref)
                if o is not None:
                    return o
        return None

    def find_in_loop(self, c, realm, ref):
        """an object that was stored in one iteration of a loop"""
        ctx = self.ctx
        if not isinstance(c, Comp) or len(c.alts) != 1 or len(c.alts[0][1]) != 1:
            raise Unsupported("lookup of an object that was stored in a loop")
        g, (seg,) = c.alts[0]
        if not isinstance(seg, Lit):
            raise Unsupported("lookup of an object that was stored in a loop")
        idx = match(bi.term(seg.v.hash), c.var, bi.term(ref))
        if idx is None:
            raise Unsupported("lookup of an object that was stored in a loop")
        o = ctx.subst(seg.v, c.var, idx)
        if not (ctx.entails(z3.And(ctx.in_range(c.src, idx, c.limit), bi.boolterm(ctx.subst(g, c.var, idx))))
                and self.same(o.realm, realm) is True):
            raise Unsupported("lookup of an object that was stored in a loop")
        ctx.register(c.src, idx)
        return o

    def find_ref(self, realm, name):
        for s in reversed(self.ctx.peek(self.refs, "segs")):
            if not isinstance(s, Lit):
                raise Unsupported("references updated in a loop")
            r, n, h = s.v
            if self.same(r, realm) and self.same(n, name):
                return h
        return None

    def add(self, realm, kind, hash_, payload):
        bi.list_append(self.it, self.store, GObj(realm, kind, hash_, payload))

    def add_ref(self, realm, name, hash_):
        bi.list_append(self.it, self.refs, (realm, name, hash_))

    def event(self, *what):
        self.ext.event(*what)

    # ------------------------------------------------------------ entry
    def run(self, args, kw):
        it = self.it
        ctx = self.ctx
        if it.truth(kw.get("shell", False)):
            self.event("shell")
            self.k.prove("no-command-is-passed-to-a-shell", False)
            raise Unsupported("shell command")
        for key in kw:
            if key not in ("input", "stdin", "stdout", "stderr", "check", "capture_output", "shell", "cwd",
                           "universal_newlines", "text", "env", "encoding"):
                raise Unsupported(f"subprocess argument {key}")
        argv = args[0]
        if bi.is_str(argv):
            raise Unsupported("command line as a text")
        argv = bi.to_pylist(it, argv)
        realm, rest = self.parse(argv)
        if rest is None:
            raise Unsupported("unknown command")
        cmd, cargs = rest[0], rest[1:]
        if not isinstance(cmd, str):
            raise Unsupported("symbolic git command")
        data = kw.get("input")
        result = None
        if self.faults and (self.fail_only is None or cmd in self.fail_only):
            if ctx.branch(ctx.fresh("git_fails", B)):
                rc = ctx.fresh("rc", I)
                ctx.fact(rc != 0)
                out, err = ctx.fresh("stdout", S), ctx.fresh("stderr", S)
                self.event("gitfail", cmd, realm, out, err)
                self.event("fault", cmd, realm)
                result = self.proc(rc, BytesV(out), BytesV(err))
        if result is None:
            m = getattr(self, "g_" + cmd.replace("-", "_"), None)
            if m is None:
                raise Unsupported(f"git {cmd}")
            result = m(realm, cargs, data)
        return self.deliver(result, kw)

    def deliver(self, r, kw):
        it = self.it
        out = kw.get("stdout")
        if it.truth(kw.get("capture_output", False)):
            out = "PIPE"
        text = any(it.truth(kw.get(x, False)) for x in ("text", "universal_newlines"))
        so = r.slots["stdout"]
        if isinstance(out, str) and out == "PIPE":
            if text:
                t = so.text
                if bi.is_raw(it, t):
                    t = bi.bytes_attr(it, so, "decode").fn(it, [], {})
                    # line ends are translated
                    if not self.ctx.entails(z3.Not(z3.Contains(t, z3.StringVal("\r")))):
                        t = self.ctx.fresh("translated_lines", S)
                r.slots["stdout"] = t
                r.slots["stderr"] = r.slots["stderr"].text
        elif out is None:
            r.slots["stdout"] = None
        elif isinstance(out, str) and out in ("STDOUT", "DEVNULL"):
            r.slots["stdout"] = None
        else:
            self.ext.write_file(out, so)
            r.slots["stdout"] = None
        if it.truth(kw.get("check", False)):
            if self.ctx.branch(bi.neg(bi.eq(it, r.slots["returncode"], 0))):
                err = it.module("subprocess").slots["CalledProcessError"]
                e = it.exc(err, r.slots["returncode"])
                e.slots.update({"output": r.slots["stdout"], **r.slots})
                raise PyRaise(e)
        return r

    def parse(self, argv):
        if not argv or argv[0] != "git":
            return None, None
        realm = None
        a = list(argv[1:])
        while a:
            x = a[0]
            if isinstance(x, str) and x in ("-P", "--no-pager"):
                a = a[1:]
            elif isinstance(x, str) and x == "--git-dir":
                realm = self.strip_git(a[1])
                a = a[2:]
            elif isinstance(x, str) and x == "-C":
                realm = self.text(a[1])
                a = a[2:]
            elif is_term(x):
                parts = bi.decompose(x)
                if bi.untrm(parts[0]) == "--git-dir=":
                    realm = self.strip_git(bi.concat(self.it, [bi.untrm(p) for p in parts[1:]]))
                    a = a[1:]
                else:
                    raise Unsupported("symbolic git option")
            elif isinstance(x, str) and x.startswith("-"):
                raise Unsupported(f"git option {x}")
            else:
                break
        return realm, a

    def text(self, x):
        if bi.is_str(x):
            return x
        return self.ext.path_text(x)

    def strip_git(self, t):
        t = self.text(t)
        if isinstance(t, str):
            if t.endswith("/.git"):
                return t[:-5]
            raise Unsupported("git dir")
        parts = [bi.untrm(p) for p in bi.decompose(t)]
        if isinstance(parts[-1], str) and parts[-1].endswith("/.git"):
            last = parts[-1][:-5]
            return bi.concat(self.it, parts[:-1] + ([last] if last else []))
        raise Unsupported("git dir")

    # ------------------------------------------------------------ writing
    def content(self, data):
        """the text that is given as standard input"""
        if isinstance(data, bytes):
            return data.decode()
        if isinstance(data, BytesV):
            return data.text
        if data is None:
            return ""
        if bi.is_str(data):
            return data
        raise Unsupported("standard input")

    def g_hash_object(self, realm, a, data):
        opts = [x for x in a]
        if not all(isinstance(x, str) for x in opts):
            raise Unsupported("hash-object arguments")
        filters = "--no-filters" not in opts
        known = {"-w", "--stdin", "--no-filters", "--stdin-paths", "-t", "blob"}
        if set(opts) - known:
            raise Unsupported(f"hash-object {opts}")
        if "--stdin" in opts:
            # content from the standard input is never filtered
            text = self.content(data)
            h = self.ext.blob_hash(text)
            if "-w" in opts:
                self.add(realm, "blob", h, text)
                self.event("save", realm, "blob", h)
            return self.proc(0, self.lines(h))
        if "-w" not in opts:
            raise Unsupported("hash-object of a file without -w")
        if "--stdin-paths" in opts:
            text = self.content(data)
            paths = self.split_lines(text)
            out = HList()

            def one(p):
                data = self.ext.file_content(p)
                if data is None or filters:
                    h = self.ext.fresh_hash()
                    d = None
                else:
                    d = data
                    h = self.ext.blob_hash(d)
                self.add(realm, "blob", h, d)
                bi.list_append(self.it, out, h)
            loops.foreach(self.it, paths, one)
            self.event("save-files", realm)
            return self.proc(0, BytesV(LinesV(self.ctx.get(out, "segs"))))
        raise Unsupported("hash-object of a file")

    def split_lines(self, text):
        """the lines of a text: an HList"""
        if isinstance(text, JoinV) and text.sep == "\n":
            return HList(text.segs)
        if isinstance(text, LinesV):
            return HList(text.segs)
        if isinstance(text, str):
            if text == "":
                return HList()
            return HList([Lit(x) for x in (text[:-1] if text.endswith("\n") else text).split("\n")])
        l = bi.s_split(self.it, text, ["\n"], {})
        segs = self.ctx.get(l, "segs")
        if segs and isinstance(segs[-1], Lit) and isinstance(segs[-1].v, str) and segs[-1].v == "":
            segs = segs[:-1]
        return HList(segs)

    def g_mktree(self, realm, a, data):
        if any(not isinstance(x, str) or x not in ("--missing", "--batch") for x in a) or "--batch" in a:
            raise Unsupported("mktree arguments")
        text = self.content(data)
        if isinstance(text, JoinV) and text.sep == "":
            lines = HList()

            def strip(line):
                ls = self.split_lines(line)
                segs = self.ctx.get(ls, "segs")
                if len(segs) != 1 or not self.terminated(line):
                    raise Unsupported("mktree input is not made of lines")
                bi.list_append(self.it, lines, segs[0].v)
            loops.foreach(self.it, HList(text.segs), strip)
        else:
            lines = self.split_lines(text)
        entries = HList()
        loops.foreach(self.it, lines, lambda l: bi.list_append(self.it, entries, self.entry(l)))
        segs = self.ctx.get(entries, "segs")
        for o in self.ctx.peek(self.store, "segs"):
            if isinstance(o, Lit) and o.v.kind == "tree" and loops.same_value(
                    self.ctx.peek(o.v.payload, "segs"), segs) and len(self.ctx.gen) == 0:
                h = o.v.hash
                break
        else:
            h = self.ext.fresh_hash("tree")
        self.add(realm, "tree", h, HList(segs))
        self.event("save", realm, "tree", h)
        return self.proc(0, self.lines(h))

    def terminated(self, line):
        if isinstance(line, str):
            return line.endswith("\n")
        p = bi.untrm(bi.decompose(bi.term(line))[-1])
        return isinstance(p, str) and p.endswith("\n")

    def entry(self, line):
        it = self.it
        l = bi.to_pylist(it, bi.s_split(it, line, ["\t", 1], {}))
        if len(l) != 2:
            raise Unsupported("mktree entry")
        f = bi.to_pylist(it, bi.s_split(it, l[0], [" "], {}))
        if len(f) != 3:
            raise Unsupported("mktree entry")
        return (f[0], f[1], f[2], self.unquote(l[1]))

    def unquote(self, name):
        """git unquotes names that start with a double quote"""
        ctx = self.ctx
        if isinstance(name, str):
            if name.startswith('"') or "\n" in name:
                raise Unsupported("quoted literal name")
            return name
        if z3.is_app(name) and name.num_args() == 1:
            h = ctx.tables.get("hom", {}).get(name.decl().name())
            if h is not None:
                if h.pre == '"' and h.post == '"' and all(ESC.get(c) == r for c, r in h.table.items()) \
                        and all(c in h.table for c in '"\\'):
                    base = name.arg(0)
                    if "\n" in h.table or ctx.entails(z3.Not(z3.Contains(base, z3.StringVal("\n")))):
                        return base
                # the name is changed
                return ctx.fresh("misread_name", S)
        if z3.is_app(name):
            known = ctx.tables.get("nosep_decl", {}).get(name.decl().name(), "")
            if '"' in known and "\n" in known:
                return name
        bad = z3.Or(z3.PrefixOf(z3.StringVal('"'), name), z3.Contains(name, z3.StringVal("\n")))
        if ctx.feasible(bad):
            if ctx.branch(bad):
                return ctx.fresh("misread_name", S)
        return name

    # ------------------------------------------------------------ reading
    def resolve(self, realm, ref):
        """the object for an id or reference name, or None"""
        if isinstance(ref, str) and ref.startswith("refs/"):
            h = self.find_ref(realm, ref)
            if h is None:
                return None
            return self.find(realm, h) or self.available(realm, h)
        o = self.find(realm, ref)
        return o or self.available(realm, ref)

    def available(self, realm, ref):
        """an object that was fetched or found to be there: the content is determined by the id"""
        for s in self.ctx.peek(self.ctx.events, "segs"):
            if isinstance(s, Lit) and s.v[0] == "avail" and self.same(s.v[1], realm) and self.same(s.v[2], ref):
                for o in self.ctx.peek(self.store, "segs"):
                    if isinstance(o, Lit) and self.same(o.v.hash, ref):
                        return o.v
        return None

    def fail(self, cmd, realm):
        ctx = self.ctx
        rc = ctx.fresh("rc", I)
        ctx.fact(rc != 0)
        out, err = ctx.fresh("stdout", S), ctx.fresh("stderr", S)
        self.event("gitfail", cmd, realm, out, err)
        return self.proc(rc, BytesV(out), BytesV(err))

    def read(self, realm, cmd, ref):
        self.event("read", realm, cmd, ref)
        o = self.resolve(realm, ref)
        if o is None:
            if self.unknown is not None:
                r = self.unknown(realm, cmd, ref)
                if r is not None:
                    return r
            return self.fail(cmd, realm)
        return o

    def g_show(self, realm, a, data):
        if len(a) != 1:
            raise Unsupported("git show arguments")
        o = self.read(realm, "show", a[0])
        if isinstance(o, Obj):
            return o
        if o.kind == "tree":
            raise Unsupported("git show of a tree")
        return self.proc(0, BytesV(o.payload))

    def g_cat_file(self, realm, a, data):
        if len(a) != 2:
            raise Unsupported("cat-file arguments")
        if a[0] == "-e":
            o = self.resolve(realm, a[1])
            self.event("probe", realm, a[1])
            if o is not None:
                return self.proc(0, BytesV(""))
            if self.ctx.branch(self.ctx.fresh("object_exists", B)):
                self.event("avail", realm, a[1])
                return self.proc(0, BytesV(""))
            rc = self.ctx.fresh("rc", I)
            self.ctx.fact(rc != 0)
            return self.proc(rc, BytesV(""))
        if a[0] not in ("-p", "blob"):
            raise Unsupported("cat-file arguments")
        o = self.read(realm, "cat-file", a[1])
        if isinstance(o, Obj):
            return o
        if o.kind == "blob":
            return self.proc(0, BytesV(o.payload))
        return self.tree_output(o)

    def g_ls_tree(self, realm, a, data):
        rec = "-r" in [x for x in a if isinstance(x, str)]
        rest = [x for x in a if not (isinstance(x, str) and x.startswith("-"))]
        if len(rest) != 1 or len(a) - len(rest) > (2 if rec else 0):
            raise Unsupported("ls-tree arguments")
        o = self.read(realm, "ls-tree", rest[0])
        if isinstance(o, Obj):
            return o
        if o.kind == "blob":
            return self.fail("ls-tree", realm)
        if rec:
            raise Unsupported("recursive ls-tree")
        return self.tree_output(o)

    def tree_output(self, o):
        out = HList()

        def one(e):
            mode, typ, h, name = e
            bi.list_append(self.it, out, bi.concat(self.it, [mode, " ", typ, " ", h, "\t", self.printed(name)]))
        loops.foreach(self.it, HList(self.ctx.peek(o.payload, "segs")), one)
        return self.proc(0, BytesV(LinesV(self.ctx.get(out, "segs"))))

    def printed(self, name):
        ctx = self.ctx
        if isinstance(name, str):
            if any(c in name for c in '"\\\n\t') or not name.isascii():
                raise Unsupported("literal name that is printed in quotes")
            return name
        q = needs_quote(name)
        if ctx.branch(q):
            t = print_name(name)
            ctx.tables.setdefault("nosep_decl", {})[print_name.name()] = "\t\n"
            ctx.fact(z3.PrefixOf(z3.StringVal('"'), t))
            ctx.fact(z3.SuffixOf(z3.StringVal('"'), t))
            ctx.fact(z3.Length(t) >= 2)
            return t
        for c in '"\\\t\n':
            ctx.fact(z3.Not(z3.Contains(name, z3.StringVal(c))))
        return name

    # ------------------------------------------------------------ others
    def g_for_each_ref(self, realm, a, data):
        """--format=%(refname) <reference name>: prints the name if the reference exists"""
        if len(a) != 2 or a[0] != "--format=%(refname)" or (isinstance(a[1], str) and not a[1].startswith("refs/")):
            raise Unsupported("for-each-ref arguments")
        self.event("probe-ref", realm, a[1])
        if self.find_ref(realm, a[1]) is not None or self.ctx.branch(self.ctx.fresh("reference_exists", B)):
            return self.proc(0, self.lines(a[1]))
        return self.proc(0, BytesV(LinesV([])))

    def g_update_ref(self, realm, a, data):
        if a and a[0] == "-d":
            if len(a) not in (2, 3):
                raise Unsupported("update-ref arguments")
            self.event("delete-ref", realm, a[1])
            return self.proc(0, BytesV(""))
        if len(a) not in (2, 3) or (isinstance(a[0], str) and a[0].startswith("-")):
            raise Unsupported("update-ref arguments")
        self.add_ref(realm, a[0], a[1])
        self.event("update-ref", realm, a[0], a[1])
        return self.proc(0, BytesV(""))

    def g_init(self, realm, a, data):
        rest = [x for x in a if not (isinstance(x, str) and x.startswith("-"))]
        if len(rest) != 1:
            raise Unsupported("init arguments")
        self.event("init", self.text(rest[0]))
        return self.proc(0, BytesV(""))

    def g_fetch(self, realm, a, data):
        opts = [x for x in a if isinstance(x, str) and x.startswith("-")]
        rest = [x for x in a if not (isinstance(x, str) and x.startswith("-"))]
        if len(rest) != 2 or set(opts) - {"-f", "--force", "--no-tags", "--no-recurse-submodules", "-q"}:
            raise Unsupported("fetch arguments")
        remote, spec = self.text(rest[0]), rest[1]
        src, dst = spec, None
        if isinstance(spec, str):
            if ":" in spec:
                src, dst = spec.split(":")
        else:
            parts = [bi.untrm(p) for p in bi.decompose(spec)]
            if ":" in [p for p in parts if isinstance(p, str)]:
                n = parts.index(":")
                src = bi.concat(self.it, parts[:n])
                dst = bi.concat(self.it, parts[n + 1:])
        self.event("fetch", realm, remote, src, dst, "-f" in opts or "--force" in opts)
        if dst is not None:
            h = self.find_ref(remote, src)
            if h is not None:
                self.add_ref(realm, dst, h)
                self.event("avail", realm, h)
        else:
            self.event("avail", realm, src)
        return self.proc(0, BytesV(""))
