"""
pyvc externals: assumed contracts of the Python standard library, of third-party
modules and of git. Everything in this file is trusted and is listed as an
assumption in the evidence; replay/assumptions.py cross-checks the git part
against the installed git.
"""
import z3

from . import builtins_ as bi
from . import loops
from .core import (
    B, I, MISSING, S, SeqS, Val, Comp, DSet, GenV, HDict, HList, HSet, Lit, Obj, PathV,
    PyRaise, SegView, Src, StrSeq, Unsupported, is_term, _alloc,
)
from .interp import (
    Builtin, BytesV, ClsV, CtxMgrFunc, ExtCtxMgr, FmtStr, FuncV, ModV, OpaqueV,
    StaticV, ClassMethodV, PropV,
)
from .builtins_ import HomV, JoinV, UuidV

blobhash = z3.Function("blobhash", S, S)
unblob = z3.Function("unblob", S, S)
joinpath = z3.Function("joinpath", SeqS, S)
parsepath = z3.Function("parsepath", S, SeqS)
pathnorm = z3.Function("pathnorm", S, S)
isname = z3.Function("isname", S, B)
needs_quote = z3.Function("git_needs_quote", S, B)
print_name = z3.Function("git_quoted_name", S, S)
sha256 = z3.Function("sha256hex", S, S)
undigest = z3.Function("sha256inv", S, S)


class LinesV:
    """text that consists of complete lines, each terminated by a newline"""

    def __init__(self, segs):
        self.segs = tuple(segs)

    def subst(self, ctx, var, t):
        return LinesV(tuple(ctx.subst(s, var, t) for s in self.segs))


class SymEsc:
    """the inner part of a quoted name as printed by git"""


class JsonText:
    pass


def fn(name, f):
    return Builtin(name, f)


class Externals:
    LinesV = LinesV

    def __init__(self, it):
        self.it = it
        self.git = None            # installed by Git(...)
        self.mods = {}
        self.path_class = None
        self.uuid_class = None
        self.assumptions = set()
        self.files = None

    # -------------------------------------------------------------- modules
    def module(self, name):
        f = getattr(self, "m_" + name.replace(".", "_"), None)
        if f is None:
            return ModV(name, {"$opaque": True})
        m = ModV(name)
        m.slots.update(f())
        return m

    def attribute(self, m, name):
        if not isinstance(m, ModV):
            return MISSING
        v = m.slots.get(name, MISSING)
        if v is not MISSING:
            return v
        if m.slots.get("$opaque"):
            return OpaqueV(f"{m.name}.{name}")
        return MISSING

    def m_typing(self):
        names = ("Any Callable DefaultDict Dict Generator IO Iterable Iterator List Optional Set "
                 "Tuple Union Type Mapping Sequence TYPE_CHECKING TypeVar NamedTuple Literal").split()
        d = {n: OpaqueV(n) for n in names}
        d["TYPE_CHECKING"] = False
        d["cast"] = fn("cast", lambda it, a, k: a[1])
        return d

    def m_abc(self):
        obj = self.it_builtin("object")
        ident = fn("abstractmethod", lambda it, a, k: a[0])
        return {"ABC": ClsV("ABC", [obj], {}), "ABCMeta": OpaqueV("ABCMeta"), "abstractmethod": ident}

    def it_builtin(self, n):
        if not self.it.builtins:
            bi.install(self.it)
        return self.it.builtins[n]

    def m_logging(self):
        log = LoggerV()
        return {"getLogger": fn("getLogger", lambda it, a, k: log),
                "Logger": OpaqueV("Logger"), **{n: 10 for n in "DEBUG INFO WARNING ERROR".split()}}

    def m_contextlib(self):
        return {"contextmanager": fn("contextmanager", lambda it, a, k: CtxMgrFunc(a[0])),
                "suppress": fn("suppress", self._suppress)}

    def _suppress(self, it, a, k):
        return ExtCtxMgr(lambda: None, lambda e: e is not None and it.exc_matches(e, tuple(a)))

    def m_collections(self):
        def dd(it, a, k):
            d = HDict()
            if a:
                d.meta["default_factory"] = a[0]
            return d
        c = ClsV("defaultdict", [self.it_builtin("dict")], {})
        c.meta["construct"] = dd
        od = ClsV("OrderedDict", [self.it_builtin("dict")], {})
        od.meta["construct"] = bi.b_dict
        return {"defaultdict": c, "OrderedDict": od}

    def m_enum(self):
        e = ClsV("Enum", [self.it_builtin("object")], {})
        e.meta["enum"] = True
        e.slots["__eq__"] = fn("Enum.__eq__", lambda it, a, k: bi.identical(it, a[0], a[1]))
        e.slots["__eq__"].method = True
        return {"Enum": e, "IntEnum": e, "auto": fn("auto", lambda it, a, k: next(_alloc))}

    def m_dataclasses(self):
        def dataclass(it, a, k):
            if not a:
                return fn("dataclass", lambda i, b, kk: self._dataclass(b[0]))
            return self._dataclass(a[0])

        def field(it, a, k):
            raise Unsupported("dataclasses.field")
        return {"dataclass": fn("dataclass", dataclass), "field": fn("field", field)}

    def _dataclass(self, cls):
        it = self.it
        fields = []
        for c in reversed(cls.mro):
            for f in c.meta.get("fields", ()):
                fields = [g for g in fields if g[0] != f[0]] + [f]

        def init(i, a, k):
            self_, rest = a[0], list(a[1:])
            for n, d in fields:
                if rest:
                    v = rest.pop(0)
                elif n in k:
                    v = k.pop(n)
                elif d is not MISSING:
                    v = d
                else:
                    i.throw("TypeError", f"missing argument {n}")
                i.setattr(self_, n, v)
            if rest or k:
                i.throw("TypeError", "too many arguments")
            pi = i.class_attr(cls, "__post_init__")
            if pi is not MISSING:
                i.call(pi, [self_], {})

        def eq(i, a, k):
            x, y = a
            if not (isinstance(y, Obj) and y.cls is x.cls):
                return False
            return bi.conj_lazy(i, [(i.getattr(x, n), i.getattr(y, n)) for n, _ in fields])
        if "__init__" not in cls.slots:
            b = fn(f"{cls.name}.__init__", init)
            b.method = True
            cls.slots["__init__"] = b
        if "__eq__" not in cls.slots:
            b = fn(f"{cls.name}.__eq__", eq)
            b.method = True
            cls.slots["__eq__"] = b
        return cls

    def m_time(self):
        return {"time": fn("time.time", lambda it, a, k: it.ctx.fresh("now", Val)),
                "sleep": fn("sleep", lambda it, a, k: None)}

    def m_os(self):
        def makedirs(it, a, k):
            self.event("makedirs", self.path_text(a[0]))
        env = HDict()
        path = ModV("os.path", {
            "join": fn("os.path.join", lambda it, a, k: bi.concat(it, [x for n, p in enumerate(a) for x in (
                ([] if n == 0 else ["/"]) + [self.path_text(p)])])),
        })
        return {"getpid": fn("getpid", lambda it, a, k: 1), "makedirs": fn("makedirs", makedirs),
                "path": path, "environ": env, "sep": "/",
                "fspath": fn("fspath", lambda it, a, k: self.path_text(a[0])),
                "PathLike": OpaqueV("PathLike")}

    def event(self, *what):
        """append to the global event list"""
        ctx = self.it.ctx
        ctx.put(ctx.events, "segs", ctx.peek(ctx.events, "segs") + (Lit(tuple(what)),))

    def m_sys(self):
        return {"version_info": (3, 12, 3), "modules": HDict(), "argv": HList()}

    def m_shlex(self):
        def split(it, a, k):
            if isinstance(a[0], str):
                import shlex
                return HList([Lit(x) for x in shlex.split(a[0])])
            raise Unsupported("shlex.split of a symbolic text")
        return {"split": fn("shlex.split", split),
                "quote": fn("quote", lambda it, a, k: FmtStr())}

    def m_string(self):
        return {}

    def m_re(self):
        return {"$opaque": True}

    def m_functools(self):
        def wraps(it, a, k):
            return fn("wraps", lambda i, b, kk: b[0])

        def partial(it, a, k):
            f, pre = a[0], a[1:]
            return fn("partial", lambda i, b, kk: i.call(f, list(pre) + list(b), {**k, **kk}))

        def lru(it, a, k):
            raise Unsupported("functools cache")

        def reduce(it, a, k):
            acc = [a[2]] if len(a) > 2 else []

            def body(v):
                if acc:
                    acc[0] = it.call(a[0], [acc[0], v], {})
                else:
                    acc.append(v)
            loops.foreach(it, a[1], body, literal_only=True)
            if not acc:
                it.throw("TypeError", "reduce() of empty iterable")
            return acc[0]
        return {"wraps": fn("wraps", wraps), "partial": fn("partial", partial),
                "lru_cache": fn("lru_cache", lru), "reduce": fn("reduce", reduce)}

    def m_itertools(self):
        def chain(it, a, k):
            return GenV(lambda oy: [loops.foreach(it, x, oy) for x in a] and None, "chain")

        def fi(it, a, k):
            return GenV(lambda oy: loops.foreach(it, a[0], lambda x: loops.foreach(it, x, oy)), "chain")
        c = ClsV("chain", [self.it_builtin("object")], {"from_iterable": StaticV(fn("from_iterable", fi))})
        c.meta["construct"] = chain
        return {"chain": c}

    def m_operator(self):
        return {"$opaque": True}

    # ------------------------------------------------------------- uuid
    def m_uuid(self):
        it = self.it
        cls = ClsV("UUID", [self.it_builtin("object")], {})

        def construct(i, a, k):
            x = a[0]
            if isinstance(x, str):
                import uuid
                try:
                    return UuidV(str(uuid.UUID(x)))
                except ValueError:
                    i.throw("ValueError", "badly formed hexadecimal UUID string")
            if isinstance(x, UuidV):
                i.throw("AttributeError", "replace")
            if is_term(x) and x.sort() == S:
                if is_uuid_text(i, x):
                    return UuidV(x)
                # an arbitrary text: it may be malformed
                if i.ctx.branch(i.ctx.fresh("malformed_uuid", B)):
                    i.throw("ValueError", "badly formed hexadecimal UUID string")
                return UuidV(i.ctx.fresh("uuid", S))
            i.throw("TypeError", "UUID")
        cls.meta["construct"] = construct
        self.uuid_class = cls
        return {"UUID": cls, "uuid4": fn("uuid4", lambda i, a, k: UuidV(new_uuid(i)))}

    # ------------------------------------------------------------- json
    def m_json(self):
        self.assumptions.add("json.dumps/json.loads: loads(dumps(x)) is a structural copy of x in which the keys of "
                             "objects are texts; the text is determined by the value")

        def dumps(it, a, k):
            return self.json_text(a[0])

        def loads(it, a, k):
            return self.json_value(a[0])

        def dump(it, a, k):
            self.write_file(a[1], self.json_text(a[0]))

        def load(it, a, k):
            raise Unsupported("json.load")
        err = ClsV("JSONDecodeError", [self.it_builtin("ValueError")], {})
        err.meta["exception"] = True
        dec = ModV("json.decoder", {"JSONDecodeError": err})
        return {"dumps": fn("json.dumps", dumps), "loads": fn("json.loads", loads),
                "dump": fn("json.dump", dump), "load": fn("json.load", load),
                "JSONDecodeError": err, "decoder": dec}

    def json_text(self, v):
        it = self.it
        ctx = it.ctx
        snap = json_copy(it, v)
        tab = ctx.tables.setdefault("json", [])
        for decl, gens, s in reversed(tab):
            if len(gens) == len(ctx.gen) and loops.same_value(
                    s if not gens else ctx.subst_many(s, gens, tuple(ctx.gen)), snap):
                t = decl(*ctx.gen) if ctx.gen else decl
                ctx.fact(z3.Length(t) > 0)
                if not ctx.gen:
                    self.distinct_texts(t, snap, tab)
                return t
        t = ctx.fresh(ctx.path_name("json"), S)
        decl = t.decl() if ctx.gen else t
        if not ctx.gen:
            self.distinct_texts(t, snap, tab)
        tab.append((decl, tuple(ctx.gen), snap))
        ctx.fact(z3.Length(t) > 0)
        return t

    def distinct_texts(self, t, snap, tab):
        for d, gens, s in tab:
            if not gens and not t.eq(d) and json_distinct(self.it.ctx, s, snap):
                self.it.ctx.fact(t != d)

    def json_value(self, t):
        it = self.it
        ctx = it.ctx
        if isinstance(t, str):
            import json
            try:
                return from_python(it, json.loads(t))
            except ValueError:
                it.throw(self.it.module("json").slots["JSONDecodeError"], "json")
        if isinstance(t, (bytes, BytesV)):
            return self.json_value(t.decode() if isinstance(t, bytes) else t.text)
        if is_term(t):
            t = self.resolve_text(t)
            for decl, gens, snap in reversed(ctx.tables.get("json", [])):
                if not gens:
                    if t.eq(decl):
                        return json_copy(it, snap)
                elif z3.is_app(t) and t.decl().eq(decl):
                    return json_copy(it, ctx.subst_many(snap, gens, tuple(t.children())))
            h = ctx.tables.get("json_unknown")
            if h is not None:
                return h(t)
        raise Unsupported("json.loads of an unknown text")

    def resolve_text(self, t):
        if z3.is_app(t) and t.decl().name() == "unblob" and z3.is_app(t.arg(0)) \
                and t.arg(0).decl().name() == "blobhash":
            return t.arg(0).arg(0)
        return t

    # ------------------------------------------------------------- hashing
    def m_hashlib(self):
        it = self.it

        class Digest:
            pass

        def sha1(i, a, k):
            """git's object id: sha1 of 'blob <len>\\0' + content"""
            o = Obj("digest", {"data": a[0] if a else b"", "algo": "sha1"})
            return DigestV(self, a[0] if a else b"", "sha1")

        def s256(i, a, k):
            return DigestV(self, a[0] if a else b"", "sha256")
        return {"sha1": fn("sha1", sha1), "sha256": fn("sha256", s256),
                "new": fn("new", lambda i, a, k: DigestV(self, a[1], a[0]))}

    def digest(self, algo, data):
        it = self.it
        if algo == "sha256":
            if isinstance(data, bytes):
                import hashlib
                return hashlib.sha256(data).hexdigest()
            if isinstance(data, BytesV) and data.text is not None:
                x = bi.term(data.text) if not isinstance(data.text, (HomV, JoinV, FmtStr)) else None
                if x is not None:
                    r = sha256(x)
                    it.ctx.fact(undigest(r) == x)
                    it.ctx.fact(z3.Not(z3.Contains(r, z3.StringVal("/"))))
                    it.ctx.tables.setdefault("len_decl", {})[sha256.name()] = 64
                    return r
            raise Unsupported("sha256 of unknown data")
        if algo == "sha1":
            if isinstance(data, bytes):
                import hashlib
                return hashlib.sha1(data).hexdigest()
            text = data.text if isinstance(data, BytesV) else None
            if text is not None and is_term(text):
                parts = bi.decompose(text)
                head = []
                # "blob " + str(len) + "\0" + content
                if len(parts) >= 4 and bi.untrm(parts[0]) == "blob " and isinstance(bi.untrm(parts[2]), str) \
                        and bi.untrm(parts[2]).startswith("\x00"):
                    rest = [bi.untrm(p) for p in parts[3:]]
                    z = bi.untrm(parts[2])[1:]
                    content = bi.concat(it, ([z] if z else []) + rest)
                    n = parts[1]
                    if z3.is_app(n) and n.decl().name() == "str_of_int":
                        ln = n.arg(0)
                        if ln.eq(bi.b_len(it, [BytesV(content)], {})) or it.ctx.entails(
                                ln == bi.b_len(it, [BytesV(content)], {})):
                            return self.blob_hash(content)
            return it.ctx.fresh("sha1", S)
        raise Unsupported(f"hash algorithm {algo}")

    def blob_hash(self, content):
        it = self.it
        ctx = it.ctx
        if isinstance(content, LinesV):
            raise Unsupported("hash of lines")
        if isinstance(content, BytesV):
            content = content.text
        if isinstance(content, FmtStr) or content is None:
            return ctx.fresh("hash", S)
        if isinstance(content, HomV):
            content = self.hom_term(content)
        x = bi.term(content)
        h = blobhash(x)
        ctx.fact(unblob(h) == x)
        self.hash_facts(h)
        return h

    def hash_facts(self, h):
        ctx = self.it.ctx
        ctx.tables.setdefault("nosep_decl", {})
        if z3.is_app(h):
            ctx.tables["nosep_decl"][h.decl().name()] = " \t\n\"/"
        ctx.tables.setdefault("len_decl", {})[h.decl().name()] = 40
        ctx.tables.setdefault("hashdecl", set()).add(h.decl().name())

    def fresh_hash(self, name="hash"):
        h = self.it.ctx.fresh(name, S)
        self.hash_facts(h)
        return h

    # ------------------------------------------------------------- codecs
    def m_codecs(self):
        def escape_decode(it, a, k):
            t = a[0]
            if isinstance(t, BytesV):
                t = t.text
            if isinstance(t, (str, bytes)):
                import codecs
                v, n = codecs.escape_decode(t)
                return (v, n)
            sl = it.ctx.tables.get("slices", {}).get(t.sexpr()) if is_term(t) else None
            if sl is not None:
                base, lo, hi = sl
                if z3.is_app(base) and base.decl().eq(print_name) and lo == 1 and hi == -1:
                    n = base.arg(0)
                    if it.ctx.entails(needs_quote(n)):
                        return (BytesV(bi.untrm(n)), it.ctx.fresh("n", I))
            raise Unsupported("escape_decode")
        return {"escape_decode": fn("escape_decode", escape_decode),
                "decode": fn("codecs.decode", lambda it, a, k: _uns("codecs.decode"))}

    # ------------------------------------------------------------- copy
    def m_copy(self):
        return {"deepcopy": fn("deepcopy", lambda it, a, k: deep_copy(it, a[0])),
                "copy": fn("copy", lambda it, a, k: shallow_copy(it, a[0]))}

    # ------------------------------------------------------------- pathlib
    def m_pathlib(self):
        it = self.it
        obj = self.it_builtin("object")
        path = ClsV("Path", [obj], {})
        path.meta["construct"] = lambda i, a, k: self.make_path(a)
        path.slots["home"] = StaticV(fn("home", lambda i, a, k: self.new_path("/home")))
        path.slots["cwd"] = StaticV(fn("cwd", lambda i, a, k: self.new_path("/cwd")))
        path.meta["getattr_hook"] = self.path_attr

        def method(name, f):
            b = fn(f"Path.{name}", f)
            b.method = True
            path.slots[name] = b
        method("__truediv__", lambda i, a, k: self.make_path([a[0], a[1]]))
        method("__eq__", lambda i, a, k: isinstance(a[1], Obj) and a[1].cls is path and bi.eq(
            i, self.path_text(a[0]), self.path_text(a[1])))
        self.path_class = path
        ppp = self.pure_posix_path(obj)
        return {"Path": path, "PosixPath": path, "PurePath": path, "PurePosixPath": ppp}

    def new_path(self, text):
        return Obj(self.path_class, {"$text": text})

    def path_text(self, p):
        if isinstance(p, Obj) and p.cls is self.path_class:
            return p.slots["$text"]
        if isinstance(p, PathV):
            return self.metadatapath_str(p)
        if bi.is_str(p):
            return p
        raise Unsupported(f"path of {p!r}")

    path_str = path_text

    def make_path(self, a):
        it = self.it
        ctx = it.ctx
        parts = []
        for x in a:
            if isinstance(x, Obj) and x.cls is self.path_class:
                t = x.slots["$text"]
                parts.append(t)
            elif isinstance(x, str):
                parts.append(x)
            elif is_term(x) and x.sort() == S:
                known = ctx.tables.get("pathtext", set())
                if x.sexpr() in known:
                    parts.append(x)
                else:
                    n = pathnorm(x) if len(a) == 1 else x
                    ctx.fact(pathnorm(n) == n)
                    ctx.tables.setdefault("pathtext", set()).add(n.sexpr())
                    parts.append(n)
            elif isinstance(x, FmtStr):
                parts.append(ctx.fresh("text", S))
            else:
                it.throw("TypeError", "expected str or path")
        if all(isinstance(p, str) for p in parts):
            from pathlib import PurePosixPath
            return self.new_path(str(PurePosixPath(*parts)))
        out = []
        for n, p in enumerate(parts):
            if isinstance(p, str):
                p = p.rstrip("/") or ("/" if n == 0 else "")
                if p == "" and n > 0 or p == ".":
                    continue
            if out:
                out.append("/")
            out.append(p)
        t = bi.concat(it, out)
        if is_term(t):
            ctx.tables.setdefault("pathtext", set()).add(t.sexpr())
        return self.new_path(t)

    def path_attr(self, it, o, name):
        t = o.slots["$text"]
        if name in ("name", "stem", "suffix"):
            return it.ctx.fresh("path_" + name, S)
        if name == "parent":
            return self.new_path(it.ctx.fresh("parent", S))
        if name == "parts":
            raise Unsupported("Path.parts")
        if name in ("as_posix", "__str__", "__fspath__"):
            return fn(name, lambda i, a, k: t)
        if name in ("absolute", "resolve", "expanduser"):
            return fn(name, lambda i, a, k: self.new_path(z3.Function(f"path_{name}", S, S)(bi.term(t))))
        if name in ("exists", "is_dir", "is_file"):
            def exists(i, a, k):
                if i.ctx.tables.get("path_exists"):
                    return True
                r = i.ctx.fresh("exists", B)
                self.event("exists", t, r)
                return r
            return fn(name, exists)
        if name in ("mkdir",):
            return fn(name, lambda i, a, k: self.event("makedirs", t))
        if name in ("unlink", "rmdir", "touch"):
            return fn(name, lambda i, a, k: self.event(name, t))
        if name == "is_absolute":
            return fn(name, lambda i, a, k: bi.s_startswith(i, t, ["/"], {}))
        if name == "joinpath":
            return fn(name, lambda i, a, k: self.make_path([o] + a))
        if name == "open":
            return fn(name, lambda i, a, k: self.open_file(t, a[0] if a else k.get("mode", "r"), a[1:], k))
        if name == "write_bytes":
            return fn(name, lambda i, a, k: self.write_new_file(t, "wb", a[0]))
        if name == "write_text":
            return fn(name, lambda i, a, k: self.write_new_file(t, "w", a[0]))
        return MISSING

    def open_file(self, path, mode, a, k):
        f = FileV(path, mode)
        f.kw = dict(k)

        def enter():
            self.flog(("open", path, mode))
            return f
        return ExtCtxMgr(enter, lambda e: False)

    def flog(self, rec):
        """append to the log of file operations"""
        ctx = self.it.ctx
        if self.files is None:
            self.files = HList()
            self.files.alloc = 0
        bi.list_append(self.it, self.files, rec)

    def write_new_file(self, path, mode, data):
        self.flog(("open", path, mode))
        self.write_file(FileV(path, mode), data)

    def write_file(self, f, data):
        """append data to a file; text mode translates nothing on POSIX except that the content is encoded"""
        it = self.it
        if isinstance(f, FileV):
            if bi.is_str(data):
                if "b" in f.mode:
                    it.throw("TypeError", "a bytes-like object is required, not 'str'")
                data = BytesV(data)
            elif "b" not in f.mode:
                it.throw("TypeError", "write() argument must be str, not bytes")
            self.flog(("write", f.path, data))
            return
        if isinstance(f, Obj) and "$sink" in f.slots:
            it.ctx.put(f, "$sink", it.ctx.get(f, "$sink") + (data,))
            return
        raise Unsupported("write to an unknown file")

    def file_content(self, path):
        """the content (text) of the file at path, None if it is not known"""
        it = self.it
        segs = () if self.files is None else it.ctx.peek(self.files, "segs")
        data = None
        for s in segs:
            if isinstance(s, Lit):
                op, p, x = s.v
                if not it.externals.git.same(p, path):
                    continue
                data = self.file_step(data, op, x)
            else:
                data = self.file_in_comp(s, path, data)
        return data

    def file_step(self, data, op, x):
        if op == "open":
            return "" if x in ("w", "wb", "wt") else None
        if data is None:
            return None
        if isinstance(x, bytes):
            t = x.decode()
        else:
            t = x.text
        if t is None or isinstance(t, (FmtStr, LinesV)):
            return None
        if data == "":
            return t
        return bi.concat(self.it, [data, t])

    def file_in_comp(self, c, path, data):
        """files written in a loop: each iteration writes the file of its own path"""
        it = self.it
        ctx = it.ctx
        if len(c.alts) != 1:
            raise Unsupported("files written conditionally in a loop")
        g, inner = c.alts[0]
        if not all(isinstance(s, Lit) for s in inner) or not inner:
            raise Unsupported("files written in nested loops")
        p0 = inner[0].v[1]
        if not all(loops.same_value(s.v[1], p0) for s in inner):
            raise Unsupported("several files written in one iteration")
        idx = match(bi.term(p0), c.var, bi.term(path))
        if idx is None:
            raise Unsupported(f"path of a file written in a loop: {p0} / {path}")
        inr = ctx.in_range(c.src, idx, c.limit)
        same = bi.term(ctx.subst(p0, c.var, idx)) == bi.term(path)
        if z3.is_int_value(idx):
            same = z3.BoolVal(True)
        if not ctx.branch(z3.And(inr, bi.boolterm(ctx.subst(g, c.var, idx)), same)):
            return data
        ctx.register(c.src, idx)
        for s in inner:
            op, _, x = ctx.subst(s.v, c.var, idx)
            data = self.file_step(data, op, x)
        return data

    # PurePosixPath as a base class (used by MetadataPath); the instance keeps
    # its elements in the slot $seq and its anchor in $abs
    def pure_posix_path(self, obj):
        it = self.it
        cls = ClsV("PurePosixPath", [obj], {})
        self.ppp = cls
        self.assumptions.add("pathlib.PurePosixPath (Python 3.12): elements and anchor of a path are determined by the "
                             "given segments as documented; `__init__` of the subclass decides the segments")

        def parse(segments):
            """(absolute?, two slashes?, elements) of the joined segments"""
            absolute, dbl, seq = False, False, z3.Empty(SeqS)
            for s in segments:
                if isinstance(s, PathV):
                    seq = z3.Concat(seq, s.term)
                    continue
                if isinstance(s, Obj) and cls in getattr(s.cls, "mro", ()):
                    if it.ctx.branch(bi.boolterm(s.slots["$abs"])):
                        absolute, dbl, seq = True, s.slots["$dbl"], s.slots["$seq"]
                    else:
                        seq = z3.Concat(seq, s.slots["$seq"])
                    continue
                if isinstance(s, Obj) and s.cls is self.path_class:
                    s = s.slots["$text"]
                if not bi.is_str(s):
                    it.throw("TypeError", "argument should be a str or an os.PathLike object")
                if isinstance(s, (FmtStr, HomV, JoinV)):
                    raise Unsupported("path from a composed text")
                a, d, p = parse_text(s)
                if it.ctx.branch(bi.boolterm(a)):
                    absolute, dbl, seq = True, d, p
                else:
                    seq = z3.Concat(seq, p)
            return absolute, dbl, z3.simplify(seq)

        def parse_text(s):
            if isinstance(s, str):
                from pathlib import PurePosixPath
                p = PurePosixPath(s)
                parts = p.parts[1:] if p.is_absolute() else p.parts
                return p.is_absolute(), p.root == "//", bi.seqterm(tuple(parts))
            if z3.is_app(s) and s.decl().eq(joinpath):
                t = s.arg(0)
                return False, False, t
            # an arbitrary text
            p = parsepath(s)
            ab = z3.PrefixOf(z3.StringVal("/"), s)
            it.ctx.fact(z3.Implies(s == z3.StringVal(""), z3.Length(p) == 0))
            it.ctx.fact(z3.Implies(s == z3.StringVal("."), z3.Length(p) == 0))
            two = z3.And(z3.PrefixOf(z3.StringVal("//"), s), z3.Not(z3.PrefixOf(z3.StringVal("///"), s)))
            return ab, two, p

        def new(i, a, k):
            o = Obj(a[0])
            if a[0] is cls:
                ab, d, q = parse(a[1:])
                i.ctx.put(o, "$abs", ab)
                i.ctx.put(o, "$dbl", d)
                i.ctx.put(o, "$seq", q)
            else:
                o.meta["newargs"] = tuple(a[1:])
            return o

        def init(i, a, k):
            ab, d, q = parse(a[1:])
            i.ctx.put(a[0], "$abs", ab)
            i.ctx.put(a[0], "$dbl", d)
            i.ctx.put(a[0], "$seq", q)
        cls.slots["__new__"] = StaticV(fn("PurePosixPath.__new__", new))
        for name, f in {
            "__init__": init,
            "is_absolute": lambda i, a, k: a[0].slots["$abs"],
            "__str__": lambda i, a, k: ppp_str(i, a[0]),
            "as_posix": lambda i, a, k: bi.b_str(i, [a[0]], {}),
            "with_segments": lambda i, a, k: i.call(a[0].cls, a[1:], {}),
            "__truediv__": lambda i, a, k: i.call(a[0].cls, [a[0], a[1]], {}),
            "joinpath": lambda i, a, k: i.call(a[0].cls, a, {}),
            "__rtruediv__": lambda i, a, k: i.call(a[0].cls, [a[1], a[0]], {}),
            "__eq__": lambda i, a, k: ppp_eq(i, a[0], a[1]),
            "__hash__": lambda i, a, k: i.ctx.fresh("hash", I),
        }.items():
            b = fn(f"PurePosixPath.{name}", f)
            b.method = True
            cls.slots[name] = b

        def parts(i, a, k):
            o = a[0]
            if i.ctx.branch(bi.boolterm(o.slots["$abs"])):
                anchor = "//" if i.ctx.branch(bi.boolterm(o.slots["$dbl"])) else "/"
                return StrSeq(z3.Concat(z3.Unit(z3.StringVal(anchor)), o.slots["$seq"]))
            return StrSeq(o.slots["$seq"])
        cls.slots["parts"] = PropV(fn("parts", parts))

        def ppp_str(i, o):
            q = o.slots["$seq"]
            ab = i.ctx.branch(bi.boolterm(o.slots["$abs"]))
            empty = i.ctx.branch(z3.Length(q) == 0)
            if ab:
                anchor = "//" if i.ctx.branch(bi.boolterm(o.slots["$dbl"])) else "/"
                return anchor if empty else bi.concat(i, [anchor, self.joined_path(StrSeq(q))])
            return "." if empty else self.joined_path(StrSeq(q))

        def ppp_eq(i, x, y):
            if not (isinstance(y, Obj) and cls in getattr(y.cls, "mro", ())):
                return False
            if not (y.cls in x.cls.mro or x.cls in y.cls.mro):
                return False
            return bi.conj([bi.eq(i, x.slots["$abs"], y.slots["$abs"]), bi.eq(i, x.slots["$dbl"], y.slots["$dbl"]), bi.eq(i, x.slots["$seq"], y.slots["$seq"])])
        return cls

    def joined_path(self, s):
        """'/'.join of path elements"""
        it = self.it
        t = z3.simplify(s.term)
        if t.decl().kind() == z3.Z3_OP_SEQ_EMPTY:
            return ""
        r = joinpath(t)
        ctx = it.ctx
        ctx.fact((z3.Length(r) == 0) == (z3.Length(t) == 0))
        ctx.fact(parsepath(r) == t)
        ctx.fact(z3.Not(z3.PrefixOf(z3.StringVal("/"), r)))
        ctx.fact(r != z3.StringVal("."))
        if t.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            ctx.fact(r == t.arg(0))
            return bi.untrm(t.arg(0))
        return r

    # contract of MetadataPath values (PathV), proved for the class in C16
    def metadatapath_attr(self, p, name):
        it = self.it
        if name == "parts":
            return StrSeq(p.term)
        if name in ("as_posix", "__str__"):
            return fn(name, lambda i, a, k: self.metadatapath_str(p))
        if name == "name":
            raise Unsupported("path.name")
        if name == "is_absolute":
            return fn(name, lambda i, a, k: False)
        if name == "parent":
            n = z3.Length(p.term)
            if it.ctx.branch(n == 0):
                return p
            return PathV(z3.simplify(z3.Extract(p.term, 0, n - 1)))
        if name == "joinpath":
            return fn(name, lambda i, a, k: self.join_paths([p] + a))
        if name == "__len__":
            return fn(name, lambda i, a, k: z3.Length(p.term))
        return MISSING

    def metadatapath_str(self, p):
        return self.joined_path(StrSeq(p.term))

    def div(self, a, b):
        if isinstance(a, PathV):
            return self.join_paths([a, b])
        if isinstance(a, Obj) and a.cls is self.path_class:
            return self.make_path([a, b])
        if isinstance(b, PathV):
            return self.join_paths([a, b])
        if isinstance(a, Obj) and isinstance(a.cls, ClsV):
            f = self.it.class_attr(a.cls, "__truediv__")
            if f is not MISSING:
                return self.it.call(self.it.bind(f, a), [b], {})
        if isinstance(b, Obj) and isinstance(b.cls, ClsV):
            f = self.it.class_attr(b.cls, "__rtruediv__")
            if f is not MISSING:
                return self.it.call(self.it.bind(f, b), [a], {})
        raise Unsupported("division")

    def join_paths(self, parts):
        seq = [self.metadatapath_seq(p) for p in parts]
        seq = [s for s in seq if not (z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_EMPTY)]
        if not seq:
            return PathV(z3.Empty(SeqS))
        return PathV(z3.simplify(seq[0] if len(seq) == 1 else z3.Concat(seq)))

    def metadatapath_seq(self, x):
        it = self.it
        if isinstance(x, PathV):
            return x.term
        if isinstance(x, str):
            from pathlib import PurePosixPath
            p = PurePosixPath(x)
            return bi.seqterm(tuple(q for q in p.parts if q != "/"))
        if is_term(x) and x.sort() == S:
            if z3.is_app(x) and x.decl().eq(joinpath):
                return x.arg(0)
            if it.ctx.entails(isname(x)):
                return z3.Unit(x)
            return parsepath(x)
        it.throw("TypeError", "argument should be a str or an os.PathLike object")

    def install_remote_contract(self):
        """Reference.is_remote: proved in C12 (is_remote, cache_location)"""
        q = "dataladmetadatamodel.mapper.reference.Reference.is_remote"
        self.it.contracts[q] = lambda it, s: self.is_remote(s["realm"])

    def is_remote(self, realm):
        ctx = self.it.ctx
        pats = ("git@", "git:", "http:", "https:", "ssh:")
        if isinstance(realm, str):
            return realm.startswith(pats)
        if not bi.is_str(realm) or not is_term(realm):
            self.it.throw("AttributeError", "startswith")
        f = z3.Function("is_remote_url", S, B)
        r = f(realm)
        head = bi.decompose(realm)[0]
        if z3.is_app(head) and head.decl().eq(pathnorm) and head.arg(0).eq(z3.String("user_cache_dir")):
            return False        # an absolute path
        return r

    def install_path_contract(self):
        q = "dataladmetadatamodel.metadatapath.MetadataPath"
        self.it.contracts[q] = lambda it, a, k: self.join_paths(a)

    # ------------------------------------------------------------- homomorphisms
    def hom_term(self, h):
        ctx = self.it.ctx
        name = "quoted[" + repr(sorted(h.table.items())) + h.pre + h.post + "]"
        f = z3.Function(name, S, S)
        ctx.tables.setdefault("hom", {})[name] = h
        t = f(bi.term(h.base))
        images = h.pre + h.post + "".join(h.table.values())
        seps = "".join(c for c in "\n\t" if c not in images and c in h.table)
        ctx.tables.setdefault("nosep_decl", {})[name] = seps
        return t

    def splitlines(self, t):
        if isinstance(t, LinesV):
            return HList(t.segs)
        it = self.it
        raise Unsupported("splitlines of an arbitrary text")

    def val_getitem(self, o, k):
        raise Unsupported("subscript of an opaque value")

    def val_attr(self, o, name):
        raise Unsupported(f"attribute {name} of an opaque value")

    # ------------------------------------------------------------- others
    def m_appdirs(self):
        return {"user_cache_dir": fn("user_cache_dir", lambda it, a, k: z3.String("user_cache_dir"))}

    def m_tempfile(self):
        def td(it, a, k):
            ext = self

            o = Obj("tempdir", {"name": it.ctx.fresh("tmpdir", S),
                                "cleanup": fn("cleanup", lambda i, b, kk: None)})
            t = o.slots["name"].sexpr()
            it.ctx.tables.setdefault("pathtext", set()).add(t)
            ext.assumptions.add("the name of a temporary directory contains no line break")
            it.ctx.tables.setdefault("nosep", {})[t] = "\n"
            return o
        return {"TemporaryDirectory": fn("TemporaryDirectory", td)}

    def m_fasteners(self):
        def lock(it, a, k):
            o = Obj("interprocesslock", {"path": a[0], "held": False})

            def acquire(i, b, kk):
                h = i.ctx.tables.get("lock_acquire")
                if h:
                    h(o)
                i.ctx.put(o, "held", True)
                self.event("lock", o)
                return True

            def release(i, b, kk):
                i.ctx.put(o, "held", False)
                self.event("unlock", o)
            o.slots["acquire"] = fn("acquire", acquire)
            o.slots["release"] = fn("release", release)
            return o
        return {"InterProcessLock": fn("InterProcessLock", lock)}

    def m_subprocess(self):
        def run(it, a, k):
            return self.git.run(a, k)

        def check_output(it, a, k):
            r = self.git.run(a, {**k, "stdout": "PIPE"})
            if it.ctx.branch(bi.neg(bi.eq(it, r.slots["returncode"], 0))):
                e = it.exc(err, r.slots["returncode"])
                e.slots.update({"output": r.slots["stdout"], "stdout": r.slots["stdout"],
                                "stderr": r.slots["stderr"], "returncode": r.slots["returncode"]})
                raise PyRaise(e)
            return r.slots["stdout"]

        def check_call(it, a, k):
            check_output(it, a, k)
            return 0
        err = ClsV("CalledProcessError", [self.it_builtin("Exception")], {})
        err.meta["exception"] = True
        return {"run": fn("subprocess.run", run), "check_output": fn("check_output", check_output),
                "check_call": fn("check_call", check_call), "PIPE": "PIPE", "STDOUT": "STDOUT",
                "DEVNULL": "DEVNULL", "CalledProcessError": err}


class DigestV:
    def __init__(self, ext, data, algo):
        self.ext = ext
        self.data = data
        self.algo = algo


class LoggerV:
    pass


class FileV:
    def __init__(self, path, mode):
        self.path = path
        self.mode = mode
        self.kw = {}


Externals.DigestV = DigestV
Externals.LoggerV = LoggerV
Externals.FileV = FileV


def match(pattern, var, target):
    """the term t for which pattern[var := t] is syntactically the target"""
    found = []

    def go(p, q):
        if p.eq(var):
            if found and not found[0].eq(q):
                return False
            found.append(q)
            return True
        if p.eq(q):
            return True
        if not (z3.is_app(p) and z3.is_app(q)) or p.num_args() != q.num_args() or p.num_args() == 0 \
                or not p.decl().eq(q.decl()):
            return False
        return all(go(x, y) for x, y in zip(p.children(), q.children()))
    if go(pattern, target) and found:
        return found[0]
    # the text of an index in the pattern, digits in the target
    ps, ts = ([bi.untrm(x) for x in bi.decompose(t)] for t in (pattern, target))
    x = ps[-1]
    if is_term(x) and x.decl().name() == "str_of_int" and x.arg(0).eq(var) and isinstance(ts[-1], str):
        head = ps[:-1]
        if head and isinstance(head[-1], str):
            pre, head = head[-1], head[:-1]
        else:
            pre = ""
        if len(head) == len(ts) - 1 and ts[-1].startswith(pre) and ts[-1][len(pre):].isdigit() \
                and str(int(ts[-1][len(pre):])) == ts[-1][len(pre):] \
                and all(not is_term(a) and a == b if isinstance(a, str) or isinstance(b, str) else a.eq(b)
                        for a, b in zip(head, ts)):
            return z3.IntVal(int(ts[-1][len(pre):]))
    return None


def key_of(t):
    return t if isinstance(t, str) else t.sexpr()


def _uns(x):
    raise Unsupported(x)


def is_uuid_text(it, t):
    if z3.is_app(t):
        return t.decl().name() in it.ctx.tables.get("uuid_decl", ())
    return False


def new_uuid(it, name="uuid"):
    t = it.ctx.fresh(name, S)
    it.ctx.tables.setdefault("uuid_decl", set()).add(t.decl().name())
    it.ctx.tables.setdefault("nosep_decl", {})[t.decl().name()] = " \t\n\"/\\"
    it.ctx.tables.setdefault("len_decl", {})[t.decl().name()] = 36
    it.ctx.fact(z3.Not(needs_quote(t)))
    return t


def from_python(it, v):
    if isinstance(v, dict):
        return HDict([DSet(k, from_python(it, x)) for k, x in v.items()])
    if isinstance(v, list):
        return HList([Lit(from_python(it, x)) for x in v])
    return v


def json_key(it, k):
    if isinstance(k, bool):
        return "true" if k else "false"
    if k is None:
        return "null"
    if isinstance(k, int):
        return str(k)
    if bi.is_str(k):
        return k
    if is_term(k) and k.sort() == I:
        return bi.b_str(it, [k], {})
    if is_term(k) and k.sort() == Val:
        return k
    it.throw("TypeError", "keys must be str, int, float, bool or None")


def json_copy(it, v):
    ctx = it.ctx
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    if is_term(v):
        return v
    if isinstance(v, (HomV, JoinV, FmtStr)):
        return v
    if isinstance(v, (HList, tuple)):
        out = HList()
        loops.foreach(it, v, lambda x: bi.list_append(it, out, json_copy(it, x)))
        return out
    if isinstance(v, HDict):
        out = HDict()

        def one(k, x):
            bi.dict_set(it, out, json_key(it, k), json_copy(it, x))
        loops.dict_foreach(it, v, one)
        return out
    if isinstance(v, Obj) and bi.native(it, v, "$val"):
        return ctx.get(v, "$val")
    if isinstance(v, Obj) and bi.native(it, v, "$dict"):
        return json_copy(it, ctx.get(v, "$dict"))
    it.throw("TypeError", f"Object of type {getattr(getattr(v, 'cls', None), 'name', type(v).__name__)} "
                          f"is not JSON serializable")


def json_distinct(ctx, a, b):
    """certainly not the same JSON value (some constant parts differ)"""
    if isinstance(a, (str, int, float, bool, type(None))) and isinstance(b, (str, int, float, bool, type(None))):
        return type(a) is type(b) and a != b
    if isinstance(a, HDict) and isinstance(b, HDict):
        def known(d):
            segs = ctx.peek(d, "segs")
            if all(isinstance(s, DSet) and isinstance(s.k, str) for s in segs):
                return {s.k: s.v for s in segs}
        x, y = known(a), known(b)
        if x is None or y is None:
            return False
        return set(x) != set(y) or any(json_distinct(ctx, x[n], y[n]) for n in x)
    return False


def deep_copy(it, v, memo=None):
    ctx = it.ctx
    memo = memo if memo is not None else {}
    if not isinstance(v, Obj):
        if isinstance(v, tuple):
            return tuple(deep_copy(it, x, memo) for x in v)
        return v
    if isinstance(v, (ClsV, ModV)):
        return v
    if id(v) in memo:
        return memo[id(v)]
    known = getattr(it.externals, "deepcopies", None)
    known = known(it, v) if known else None
    if known is not None:
        memo[id(v)] = known
        return known
    if isinstance(v, HList):
        out = HList()
        memo[id(v)] = out
        loops.foreach(it, v, lambda x: bi.list_append(it, out, deep_copy(it, x, memo)))
        return out
    if isinstance(v, HSet):
        out = HSet()
        memo[id(v)] = out
        loops.foreach(it, v, lambda x: bi.set_add(it, out, deep_copy(it, x, memo)))
        return out
    if isinstance(v, HDict):
        out = HDict(cls=v.cls)
        out.meta.update({k: x for k, x in v.meta.items() if k not in ("fam", "idx")})
        memo[id(v)] = out
        loops.dict_foreach(it, v, lambda k, x: bi.dict_set(it, out, deep_copy(it, k, memo), deep_copy(it, x, memo)))
        return out
    if isinstance(v.cls, ClsV):
        if v.cls.meta.get("enum") or any(c.meta.get("enum") for c in v.cls.mro):
            return v
        f = it.class_attr(v.cls, "__deepcopy__")
        if f is not MISSING:
            return it.call(it.bind(f, v), [HDict()], {})
        out = Obj(v.cls)
        memo[id(v)] = out
        keys = v.slots if "fam" not in v.meta else (
            getattr(v.meta["fam"], "template", None) or v).slots
        for k in list(keys):
            if isinstance(k, tuple):
                continue
            x = ctx.get(v, k)
            if x is not MISSING:
                ctx.put(out, k, deep_copy(it, x, memo))
        return out
    raise Unsupported(f"deepcopy of {v!r}")


def shallow_copy(it, v):
    if isinstance(v, HList):
        return HList(it.ctx.get(v, "segs"))
    if isinstance(v, HDict):
        return HDict(it.ctx.get(v, "segs"), v.cls)
    if isinstance(v, HSet):
        return HSet(it.ctx.get(v, "segs"))
    if isinstance(v, Obj) and isinstance(v.cls, ClsV) and not isinstance(v, ClsV):
        out = Obj(v.cls)
        for k in list(v.slots):
            if not isinstance(k, tuple):
                it.ctx.put(out, k, it.ctx.get(v, k))
        return out
    if not isinstance(v, Obj):
        return v
    raise Unsupported("copy.copy")
