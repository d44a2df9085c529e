"""C08 Copies are complete, independent and stored"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import B, DSet, HDict, HSet, Lit, Obj, PathV, S, SeqS
from pyvc.gitmodel import Git

from . import c01
from .common import MO, MP, Elements, InstanceSets, Tree, UuidSets, VersionLists, comp, why
from .state import CLASSES, REF, Realms, new, opaque


class Copier(c01.Writer):
    """the sub-objects are under contract: deepcopy returns a new object that is stored in the destination;
    the source is loaded and purged under contract; everything else is executed"""

    def __init__(self, k, dest):
        super().__init__(k)
        self.dest = dest
        self.source = None
        self.copy = None
        self.known = []
        self.copied = []
        self.loaded = []
        self.rejected = []

    def call(self, m, it, s, cls=MO):
        o = s["self"]
        k = self.k
        if o is self.source:
            if m == "deepcopy":
                return self.execute(m, it, s, cls)
            self.loaded.append(m)
            if m == "read_in":
                if k.ctx.get(o, "mapped") is False:
                    self.put()
                    k.ctx.put(o, "mapped", True)
                return o
            if m == "purge":
                k.ctx.put(o, "mapped", False)
                return None
            raise NotImplementedError(m)
        part = o.meta.get("fam") is not None or any(o is x for x in self.known)
        if not part:
            return self.execute(m, it, s, cls)
        if m == "deepcopy":
            self.copied.append(s)
            return self.copy(o, s["new_destination"])
        if m == "write_out":
            if any(o is x for x in self.originals()):
                self.rejected.append(o)
            return k.get(o, "reference")
        if m == "is_saved_on":
            return True
        if m == "purge":
            return None
        raise NotImplementedError(m)

    def originals(self):
        return ()

    def execute(self, m, it, s, cls):
        fn = it.class_attr(it.lookup_class(cls), m)
        return it.call_body(fn, [s["self"]], {a: b for a, b in s.items() if a != "self" and a != "kwargs"} | dict(
            (x.k, x.v) for x in it.ctx.get(s["kwargs"], "segs")) if "kwargs" in s else {
                a: b for a, b in s.items() if a != "self"})


class Source:
    """the object that is copied: saved anywhere, loaded or not"""

    def __init__(self, k, E, o, **parts):
        self.k = k
        self.o = o
        self.realms = Realms(k)
        self.parts = parts
        k.ctx.put(o, "saved_on", self.realms.set)
        self.loaded = k.bool("loaded")
        self.realm = k.realm("source_realm")
        self.ref = k.new(REF, o.cls.name, k.str("source_location"))
        k.ctx.put(o, "realm", self.realm)
        k.ctx.put(o, "reference", self.ref)
        k.ctx.put(o, "mapped", self.loaded)
        if self.loaded:
            self.put()
        else:
            for n, v in parts.items():
                k.ctx.put(o, n, HDict() if isinstance(v, HDict) else None)
        E.source = o
        E.put = self.put
        self.segs = {n: k.ctx.get(v, "segs") for n, v in parts.items() if isinstance(v, HDict)}
        self.saved = k.ctx.get(self.realms.set, "segs")

    def put(self):
        for n, v in self.parts.items():
            self.k.ctx.put(self.o, n, v)

    def unchanged(self, E):
        k, o = self.k, self.o
        s = k.ctx.get(o, "saved_on")
        k.prove("source/saved-state", s is self.realms.set and k.ctx.peek(s, "segs") == self.saved)
        k.prove("source/loaded-state", k.ctx.get(o, "mapped") is self.loaded)
        k.prove("source/reference", k.ctx.get(o, "reference") is self.ref and k.eq(k.get(self.ref, "class_name"), o.cls.name))
        k.prove("source/realm", k.eq(k.ctx.get(o, "realm"), self.realm))
        k.prove("source/parts-are-not-written", not E.rejected)
        k.prove("source/read-only", E.loaded in ([], ["read_in"]) if self.loaded else E.loaded == ["read_in", "purge"])
        for n, v in self.parts.items():
            w = k.ctx.get(o, n)
            k.prove("source/content", not self.loaded or (
                w is v and k.ctx.peek(w, "segs") == self.segs[n] if isinstance(v, HDict) else w is v))


def copy(k, E, X, cls, *args, **kw):
    """the copy, loaded from the destination"""
    a = k.attempt(lambda: k.m(X.o, "deepcopy", None, E.dest, **kw))
    k.prove("copy/succeeds", a.ok, why(k, a))
    if not a.ok:
        return None
    c = a.value
    X.unchanged(E)
    k.prove("copy/new-object", c is not X.o and c.cls is X.o.cls and c.meta.get("fam") is None)
    k.prove("copy/parts-are-copied-to-the-destination", all(
        k.eq(s["new_destination"], E.dest) is True for s in E.copied))
    return c


def stored(k, E, c):
    """the copy is stored in the destination and nowhere else; it is loaded from there"""
    r = k.get(c, "reference")
    k.prove("copy/reference", r is not None)
    k.prove("copy/realm", k.eq(k.get(c, "realm"), E.dest))
    s = k.ctx.get(k.get(c, "saved_on"), "segs")
    k.prove("copy/saved", len(s) == 1 and isinstance(s[0], Lit) and k.eq(s[0].v, E.dest))
    b = k.attempt(lambda: k.m(c, "read_in"))
    k.prove("copy/loads", b.ok, why(k, b))
    return b.ok


def tree_node(k):
    """MTreeNode: the same names with copies of the children"""
    Git(k)
    dest = k.realm()
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Copier(k, dest)
    T = Tree(k, "metadata.Metadata", E)
    E.copy = T.copy_child
    X = Source(k, E, T.node(), child_nodes=T.dict)
    c = copy(k, E, X, "MTreeNode")
    if c is None:
        return
    k.prove("tree/leaf-class", k.get(c, "leaf_class") is k.get(X.o, "leaf_class"))
    k.prove("tree/own-children", k.ctx.get(c, "child_nodes") is not T.dict)
    x = k.name("x")
    has, i = T.index(x)
    if k.truth(k.m(k.get(c, "reference"), "is_none_reference")):
        k.cover("tree/none-reference")
        k.prove("tree/none-reference-only-without-content", z3.Not(z3.And(has, z3.Not(T.empty(i)))))
        return
    if stored(k, E, c):
        k.split(lambda: c01.same_child(k, T, c, x, has, i, dest))


def version_lists(k, kind, elem, where):
    """version lists: the same entries with copies of the elements; the prefix is prepended to each path"""
    Git(k)
    dest = k.realm()
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Copier(k, dest)
    D = VersionLists(k, elem, split=True)
    E.copy = D.copy_child
    X = Source(k, E, new(k, kind), version_set=D.outer)
    prefix = None if where == "without_prefix" else k.path("path_prefix")
    c = copy(k, E, X, kind, **({} if prefix is None else {"path_prefix": prefix}))
    if c is None:
        return
    k.prove("list/own-entries", k.ctx.get(c, "version_set") is not D.outer)
    if not stored(k, E, c):
        return
    v, p = k.str("version"), k.path("prefix_path")
    if where == "without_prefix":
        k.split(lambda: c01.same_entry_at(k, D, c, dest, v, p, p))
    elif where == "below_prefix":
        k.split(lambda: c01.same_entry_at(k, D, c, dest, v, p, PathV(z3.Concat(prefix.term, p.term))))
    else:
        k.split(lambda: no_other_entry(k, c, v, k.path("other_path"), prefix))


def no_other_entry(k, c, v, q, prefix):
    a = k.attempt(lambda: k.call(k.it.getattr(c, "_get_version_record"), v, q))
    k.prove("list/no-entry-without-the-prefix",
            z3.PrefixOf(prefix.term, q.term) if a.ok else k.is_exc(a.exc, "KeyError"), why(k, a))


VERSION_LISTS = []
for _kind, _elem in (("VersionList", CLASSES["MetadataRootRecord"]), ("TreeVersionList", "datasettree.DatasetTree")):
    for _where in ("without_prefix", "below_prefix", "elsewhere"):
        _h = (lambda kind, elem, where: lambda k: version_lists(k, kind, elem, where))(_kind, _elem, _where)
        _h.__name__ = f"{'tree_' if _kind[0] == 'T' else ''}version_list_{_where}"
        globals()[_h.__name__] = _h
        VERSION_LISTS.append(_h)


def uuid_set(k):
    """UUIDSet: the same identifiers with copies of the version lists"""
    Git(k)
    dest = k.realm()
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Copier(k, dest)
    D = UuidSets(k)
    E.copy = D.copy_child
    X = Source(k, E, new(k, "UUIDSet"), uuid_set=D.dict)
    c = copy(k, E, X, "UUIDSet")
    if c is None:
        return
    k.prove("uuids/own-entries", k.ctx.get(c, "uuid_set") is not D.dict)
    if stored(k, E, c):
        k.split(lambda: c01.same_list(k, D, c, dest))


def metadata(k):
    """Metadata: the same extractors with the same instance sets"""
    Git(k)
    dest = k.realm()
    E = Copier(k, dest)
    D = InstanceSets(k)
    k.ext.deepcopies = lambda it, v: D.duplicate(v)
    X = Source(k, E, new(k, "Metadata"), instance_sets=D.dict)
    c = copy(k, E, X, "Metadata")
    if c is None:
        return
    k.prove("metadata/own-entries", k.ctx.get(c, "instance_sets") is not D.dict)
    if stored(k, E, c):
        k.split(lambda: c01.same_set(k, D, c))


def text(k):
    """Text: the same text"""
    Git(k)
    dest = k.realm()
    E = Copier(k, dest)
    t = k.str("content")
    X = Source(k, E, new(k, "Text"), content=t)
    c = copy(k, E, X, "Text")
    if c is not None and stored(k, E, c):
        k.prove("text/content", k.eq(k.get(c, "content"), t))


def root_record(k):
    """MetadataRootRecord: identifier, version and copies of both parts"""
    Git(k)
    dest = k.realm()
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Copier(k, dest)
    ident, version = k.opt(k.uuid("identifier"), "no_identifier"), k.opt(k.str("version"), "no_version")
    dlm = c01.child(k, "metadata.Metadata", "dlm") if k.bool("has_dlm") else None
    ft = c01.child(k, "filetree.FileTree", "ft") if k.bool("has_ft") else None
    empty = ft is not None and k.bool("file_tree_is_empty")
    h1, h2 = k.ext.fresh_hash("dlm"), k.ext.fresh_hash("ft")
    E.known = [x for x in (dlm, ft) if x is not None]
    E.known += [k.get(x, "mtree") for x in E.known if x is ft]
    E.originals = lambda: [x for x in (dlm, ft) if x is not None]

    def child_copy(o, d):
        r = k.new(REF, "Metadata" if o is dlm else "MTreeNode", h1 if o is dlm else "*None*" if empty else h2)
        slots = {"mapped": False, "realm": d, "reference": r}
        c = Obj(o.cls, slots)
        if o is not dlm:
            n = Obj(k.cls("mtreenode.MTreeNode"), slots)
            E.known.append(n)
            c = Obj(o.cls, {"mtree": n})
        E.known.append(c)
        return c
    E.copy = child_copy
    X = Source(k, E, new(k, "MetadataRootRecord", dataset_identifier=ident, dataset_version=version),
               dataset_level_metadata=dlm, _file_tree=ft)
    c = copy(k, E, X, "MetadataRootRecord")
    if c is None or not stored(k, E, c):
        return
    k.prove("record/identifier", k.eq(k.get(c, "dataset_identifier"), ident))
    k.prove("record/version", k.eq(k.get(c, "dataset_version"), version))
    d2, f2 = k.get(c, "dataset_level_metadata"), k.get(c, "_file_tree")
    k.prove("record/parts-exist", (d2 is None) == (dlm is None) and (f2 is None) == (ft is None or empty))
    if d2 is not None:
        k.prove("record/dataset-level-metadata", d2.cls.name == "Metadata" and d2 is not dlm and bi.conj(
            [k.eq(k.get(k.get(d2, "reference"), "location"), h1), k.eq(k.get(d2, "realm"), dest)]))
    if f2 is not None:
        m = k.get(f2, "mtree")
        k.prove("record/file-tree", f2.cls.name == "FileTree" and f2 is not ft and bi.conj(
            [k.eq(k.get(k.get(m, "reference"), "location"), h2), k.eq(k.get(m, "realm"), dest)]))


def proxy(k):
    """FileTree and DatasetTree: a new object of the class with the copy of the tree"""
    dest = k.realm()
    cls = ["filetree.FileTree", "datasettree.DatasetTree"][k.choose(2)]
    leaf = k.cls("metadata.Metadata" if cls.startswith("file") else "metadatarootrecord.MetadataRootRecord")
    n, n2 = k.new("mtreenode.MTreeNode", leaf), k.new("mtreenode.MTreeNode", leaf)
    o = k.new(cls, n)
    asked = []

    def contract(it, s):
        asked.append((s["self"], s["new_destination"]))
        return n2
    k.it.contracts[f"{MO}.deepcopy"] = contract
    a = k.attempt(lambda: k.m(o, "deepcopy", None, dest))
    k.prove("proxy/succeeds", a.ok, why(k, a))
    k.prove("proxy/copies-its-tree", len(asked) == 1 and asked[0][0] is n and k.eq(asked[0][1], dest))
    if a.ok:
        k.prove("proxy/new-object", a.value is not o and a.value.cls is o.cls)
        k.prove("proxy/copied-tree", k.get(a.value, "mtree") is n2)
        k.prove("proxy/source-tree", k.get(o, "mtree") is n)


HARNESSES = VERSION_LISTS + [tree_node, uuid_set, metadata, text, root_record, proxy]
