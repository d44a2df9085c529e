"""C17 Metadata sources deliver and copy exactly what they refer to"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import DSet, HDict, HList, Lit, Obj, Src, I, S, Val
from pyvc.gitmodel import Git
from pyvc.interp import Builtin, BytesV

from .c07 import foreign_sources, immediate_source, local_source  # noqa: F401
from .common import comp, events, why

L, IM, ANY = (f"metadatasource.{n}" for n in ("LocalGitMetadataSource", "ImmediateMetadataSource", "MetadataSource"))


class File:
    """an open file that is written"""

    def __init__(self, k):
        self.k = k
        self.o = Obj("file", {"$sink": ()})
        self.o.slots["write"] = Builtin("write", lambda it, a, kw: it.externals.write_file(self.o, a[0]))
        self.o.slots["flush"] = Builtin("flush", lambda it, a, kw: None)

    def content(self):
        """everything that was written"""
        parts = [w.text if isinstance(w, BytesV) else w for w in self.k.ctx.get(self.o, "$sink")]
        parts = [p for p in parts if not (isinstance(p, str) and p == "")]
        return "" if not parts else parts[0] if len(parts) == 1 else bi.concat(self.k.it, parts)


class Source:
    """a source for a blob with arbitrary bytes in an arbitrary repository; every git command may fail"""

    def __init__(self, k, stored=True):
        self.k = k
        self.git = Git(k, faults=True)
        self.realm = k.realm("repository")
        self.bytes = k.str("bytes")
        k.ctx.tables.setdefault("raw", set()).add(self.bytes.sexpr())
        self.id = k.ext.blob_hash(self.bytes)
        if stored:
            self.git.add(self.realm, "blob", self.id, self.bytes)
        self.before = len(self.objects())
        head, tail = ["", " ", "\n"][k.choose(3)], ["", "\n", "\r\n"][k.choose(3)]
        ref = bi.concat(k.it, [x for x in (head, self.id, tail) if not (isinstance(x, str) and not x)])
        self.path = k.call(k.cls("metadatasource.Path"), self.realm)
        self.o = k.new(L, self.path, ref)
        if k.bool("restored_from_json"):
            a = k.attempt(lambda: k.call(k.it.getattr(k.cls(ANY), "from_json_obj"), k.m(self.o, "to_json_obj")))
            k.prove("source/restored", a.ok and a.value is not None, why(k, a))
            self.o = a.value

    def objects(self):
        return self.k.ctx.peek(self.git.store, "segs")

    def new_objects(self):
        return self.objects()[self.before:]

    def failed(self):
        return bool(events(self.k, "fault"))


def deliver(k):
    """write_object_to: exactly the bytes of the object are written to the file, or an exception is raised"""
    X = Source(k)
    f = File(k)
    a = k.attempt(lambda: k.m(X.o, "write_object_to", f.o))
    k.prove("deliver/fails-iff-git-fails", a.ok is not X.failed(), why(k, a))
    if a.ok:
        k.prove("deliver/exactly-the-bytes", k.eq(f.content(), X.bytes))
    k.prove("deliver/stores-nothing", not X.new_objects() and not events(k, "update-ref", "delete-ref"))


def copied(k):
    """copy_object_to: the identical object is in the destination and its id is the result, or an exception is raised"""
    X = Source(k)
    dest = k.realm("destination")
    a = k.attempt(lambda: k.m(X.o, "copy_object_to", k.call(k.cls("metadatasource.Path"), dest)))
    k.prove("copy/fails-iff-git-fails", a.ok is not X.failed(), why(k, a))
    new = X.new_objects()
    k.prove("copy/stores-at-most-one-object", len(new) <= 1 and all(isinstance(s, Lit) for s in new))
    k.prove("copy/only-in-the-destination", bi.conj([k.eq(s.v.realm, dest) for s in new]))
    k.prove("copy/no-reference-is-moved", not events(k, "update-ref", "delete-ref"))
    if a.ok:
        k.prove("copy/id", k.eq(a.value, X.id))
        k.prove("copy/object", len(new) == 1)
        if new:
            o = new[0].v
            k.prove("copy/identical", o.kind == "blob" and bi.conj([k.eq(o.hash, X.id), k.eq(o.payload, X.bytes)]))


def missing(k):
    """an object that is not in the repository is neither delivered nor copied"""
    X = Source(k, stored=False)
    f = File(k)
    if k.bool("copy"):
        a = k.attempt(lambda: k.m(X.o, "copy_object_to", k.call(k.cls("metadatasource.Path"), k.realm("destination"))))
    else:
        a = k.attempt(lambda: k.m(X.o, "write_object_to", f.o))
    k.prove("missing/is-reported", not a.ok)
    k.prove("missing/nothing-is-stored", not X.new_objects())


def immediate(k):
    """an immediate source delivers its value; copying it does nothing"""
    c = k.val("content")
    o = k.new(IM, c)
    f = File(k)
    a = k.attempt(lambda: k.m(o, "write_object_to", f.o))
    k.prove("immediate/delivers", a.ok, why(k, a))
    if a.ok:
        k.prove("immediate/exactly-the-value", k.eq(k.ext.json_value(f.content()), c))
    b = k.attempt(lambda: k.m(o, "copy_object_to", k.call(k.cls("metadatasource.Path"), k.str("destination"))))
    k.prove("immediate/copy-does-nothing", b.ok, why(k, b))
    k.prove("immediate/content-is-kept", k.eq(k.get(o, "content"), c))


def duplicate(k):
    """deepcopy of an immediate source: the same value, no shared state: an arbitrary object with arbitrary lists
    of arbitrary values and of arbitrary objects as members"""
    ctx = k.ctx
    u = k.uid()
    name = k.invertible("name", 1, S)
    src = k.src("members")
    k.injective(name, src)
    items = k.srct("items", 1)
    i0 = k.var()
    ctx.ufact(src.t, (i0,), (i0,), items.nfun(i0) >= 0)
    item = z3.Function(f"item@{u}", I, I, Val)
    inner = k.fam("inner", "dict", {"segs": lambda i: (DSet("x", z3.Function(f"x@{u}", I, Val)(i)),)})

    def segs(i):
        j = k.var("j")
        t = k.generic(inner, i) if ctx.bound(i) else k.member(inner, i)
        return (Lit(t), comp(Src(items, [i]), j, Lit(item(i, j))))
    lists = k.fam("list", "list", {"segs": segs})
    v = k.var()
    content = HDict([comp(src, v, DSet(name(v), k.generic(lists, v)))])
    o = k.new(IM, content)
    a = k.attempt(lambda: k.m(o, "deepcopy"))
    k.prove("duplicate/succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    c = k.get(a.value, "content")
    k.prove("duplicate/new-source", a.value is not o and a.value.cls is o.cls)
    k.prove("duplicate/content-is-kept", k.get(o, "content") is content)
    k.prove("duplicate/own-object", isinstance(c, HDict) and c is not content)
    x = k.str("member")
    i = z3.simplify(ctx.tables["inv"][name.name()](x))
    ctx.register(src, i)
    has = z3.And(ctx.in_range(src, i), name(i) == x)
    b = k.attempt(lambda: k.it.getitem(c, x))
    if not k.branch(has):
        k.prove("duplicate/no-other-member", not b.ok and k.is_exc(b.exc, "KeyError"))
        return
    k.prove("duplicate/member", b.ok and isinstance(b.value, HList), why(k, b))
    if not b.ok:
        return
    l, l0 = b.value, k.member(lists, i)
    k.prove("duplicate/own-list", bi.neg(bi.boolterm(bi.identical(k.it, l, l0))))
    ln = k.it.builtins["len"]
    k.prove("duplicate/same-length", k.eq(k.call(ln, l), k.call(ln, l0)))
    d, d0 = k.it.getitem(l, 0), k.it.getitem(l0, 0)
    k.prove("duplicate/own-inner-object", isinstance(d, HDict) and bi.neg(bi.boolterm(bi.identical(k.it, d, d0))))
    k.prove("duplicate/inner-value", k.eq(k.it.getitem(d, "x"), k.it.getitem(d0, "x")))
    j = k.ctx.skolem(Src(items, [i]), "j")
    k.prove("duplicate/item", k.eq(k.it.getitem(l, j + 1), item(i, j)))


def incomplete(k):
    """a document without one of its members yields nothing"""
    c = k.choose(2)
    o = k.new(L, k.call(k.cls("metadatasource.Path"), k.str("repository")), k.str("object_reference")) if c == 0 \
        else k.new(IM, k.val("content"))
    cls = [[L, IM][c], ANY][k.choose(2)]
    doc = k.m(o, "to_json_obj")
    if k.bool("in_the_header"):
        del_item(k, k.it.getitem(doc, "@"), ["type", "version"][k.choose(2)])
    else:
        members = ["@", "metadata_source_type"] + [["git_repository_path", "object_reference"], ["content"]][c]
        del_item(k, doc, members[k.choose(len(members))])
    if k.bool("stored"):
        doc = k.ext.json_value(k.ext.json_text(doc))
    a = k.attempt(lambda: k.call(k.it.getattr(k.cls(cls), "from_json_obj"), doc))
    k.prove("incomplete/yields-nothing", a.ok and a.value is None, why(k, a))


def del_item(k, d, name):
    segs = k.ctx.get(d, "segs")
    k.ctx.put(d, "segs", tuple(s for s in segs if s.k != name))


HARNESSES = [local_source, immediate_source, foreign_sources, incomplete, deliver, copied, missing, immediate, duplicate]
