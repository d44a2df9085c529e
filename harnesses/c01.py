"""C01 Save and restore is lossless: the contracts of every mapper pair. Each
harness writes an arbitrary object of one class (any number of children, each
under the contract of write_out) into the ghost git store and loads a second
object from the returned reference"""
import z3
from pyvc import builtins_ as bi
from pyvc.core import B, DSet, HDict, Lit, Obj, PathV, S, Val
from pyvc.gitmodel import Git

from .common import MO, Elements, InstanceSets, Tree, UuidSets, VersionLists, comp, why


class Writer(Elements):
    """children are written by their contract; the object under test by its code"""

    def __init__(self, k):
        super().__init__(k)
        k.ext.install_path_contract()
        self.write = None
        self.body = []

    def call(self, m, it, s, cls=MO):
        o = s["self"]
        if any(o is x for x in self.body):
            fn = it.class_attr(it.lookup_class(cls), m)
            return it.call_body(fn, [o], {k: v for k, v in s.items() if k != "self"})
        if m == "write_out":
            return self.write(o)
        if m == "is_saved_on":
            # the parts that are written are saved then
            return True
        return super().call(m, it, s, cls)


def save(k, E, o, dest):
    E.body.append(o)
    return k.attempt(lambda: k.m(o, "write_out", dest))


def load(k, E, cls, dest, ref, *args, first=()):
    """a second object from the reference, or the same object after it was purged"""
    if getattr(k, "reload", False) and not first:
        o = E.body[0]
        mapped = k.get(o, "mapped")
        a = k.attempt(lambda: k.m(o, "purge"))
        k.prove("purge-succeeds", a.ok, why(k, a))
        k.prove("purge-forgets", mapped is True and k.get(o, "mapped") is False)
    else:
        o = k.new(cls, *first, *args, realm=dest, reference=ref)
        E.body.append(o)
    a = k.attempt(lambda: k.m(o, "read_in"))
    s = k.ctx.get(k.get(o, "saved_on"), "segs")
    k.prove("load/saved-state", len(s) == 1 and isinstance(s[0], Lit) and k.eq(s[0].v, dest))
    k.prove("load/mapped", not a.ok or k.truth(k.get(o, "mapped")))
    return o, a


def tree_node(k):
    """MTreeNode: the same names with the same kind of child and the same references; empty parts are absent"""
    _tree_node(k, "metadata.Metadata")


def tree_node_text(k):
    _tree_node(k, "text.Text")


def _tree_node(k, leaf):
    g = Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    T = Tree(k, leaf, E)
    E.write = T.write_child
    dest = k.realm()
    o = T.node()
    a = save(k, E, o, dest)
    k.prove("tree/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    r = a.value
    k.prove("tree/class", k.eq(k.get(r, "class_name"), "MTreeNode"))
    x = k.name("x")
    has, i = T.index(x)
    if k.truth(k.m(r, "is_none_reference")):
        k.cover("tree/none-reference")
        k.prove("tree/none-reference-only-without-content", z3.Not(z3.And(has, z3.Not(T.empty(i)))))
        return
    o2, a = load(k, E, "mtreenode.MTreeNode", dest, r, T.leaf)
    k.prove("tree/load-succeeds", a.ok, why(k, a))
    if a.ok:
        k.split(lambda: same_child(k, T, o2, x, has, i, dest))
        k.split(lambda: two_children(k, o2))


def no_sharing(k, label, x, y):
    """parts that were loaded for two different places are different objects:
    a change of one of them leaves the other one alone"""
    a, b = k.attempt(x), k.attempt(y)
    if not a.ok or not b.ok or a.value is None or b.value is None:
        return
    k.cover(f"{label}/two-parts")
    for p, q in zip(a.value, b.value):
        k.prove(f"{label}/different-objects", bi.neg(bi.identical(k.it, p, q)))


def just(k, o):
    return None if o is None else [o]


def two_children(k, o2):
    x, y = k.name("x"), k.name("y")
    k.assume(x != y)
    no_sharing(k, "tree", lambda: just(k, k.m(o2, "get_child", x)),
               lambda: just(k, k.m(o2, "get_child", y)))


def same_child(k, T, o2, x, has, i, dest):
    c = k.m(o2, "get_child", x)
    want = k.branch(z3.And(has, z3.Not(T.empty(i))))
    if not want:
        k.cover("tree/absent")
        k.prove("tree/no-other-name", c is None)
        return
    k.cover("tree/present")
    k.prove("tree/name-is-found", c is not None)
    if c is None:
        return
    child = T.child(i)
    k.prove("tree/kind", c.cls is child.cls)
    k.prove("tree/reference", k.eq(k.get(k.get(c, "reference"), "location"), T.loc(i)))
    k.prove("tree/reference-class", k.eq(k.get(k.get(c, "reference"), "class_name"), c.cls.name))
    k.prove("tree/realm", k.eq(k.get(c, "realm"), dest))


# ------------------------------------------------------------------ text

def text(k):
    """Text: exactly the stored text; the same text has the same reference"""
    Git(k)
    E = Writer(k)
    c = k.str("content")
    dest = k.realm()
    o = k.new("text.Text", c)
    a = save(k, E, o, dest)
    k.prove("text/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("text/class", k.eq(k.get(a.value, "class_name"), "Text"))
    o2, b = load(k, E, "text.Text", dest, a.value, None)
    k.prove("text/load-succeeds", b.ok, why(k, b))
    k.prove("text/content", b.ok and k.eq(k.get(o2, "content"), c))
    o3 = k.new("text.Text", c)
    b = save(k, E, o3, dest)
    k.prove("text/same-reference-again", b.ok and k.eq(k.get(b.value, "location"), k.get(a.value, "location")))


# ------------------------------------------------------------------ metadata

def metadata(k):
    """Metadata: the same extractors with the same instance sets"""
    Git(k)
    E = Writer(k)
    D = InstanceSets(k)
    dest = k.realm()
    o = k.new("metadata.Metadata")
    k.ctx.put(o, "instance_sets", D.dict)
    a = save(k, E, o, dest)
    k.prove("metadata/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("metadata/class", k.eq(k.get(a.value, "class_name"), "Metadata"))
    o2, b = load(k, E, "metadata.Metadata", dest, a.value)
    k.prove("metadata/load-succeeds", b.ok, why(k, b))
    if b.ok:
        k.split(lambda: same_set(k, D, o2))
    o3 = k.new("metadata.Metadata")
    k.ctx.put(o3, "instance_sets", D.dict)
    c = save(k, E, o3, dest)
    k.prove("metadata/same-reference-again", c.ok and k.eq(k.get(c.value, "location"), k.get(a.value, "location")))


def same_set(k, D, o2):
    x = k.str("extractor")
    has, i = D.index(x)
    a = k.attempt(lambda: k.m(o2, "extractor_runs_for_extractor", x))
    if not k.branch(has):
        k.cover("metadata/unknown")
        k.prove("metadata/no-other-extractor", not a.ok and k.is_exc(a.exc, "KeyError"))
        return
    k.cover("metadata/known")
    k.prove("metadata/extractor-is-found", a.ok, why(k, a))
    if a.ok:
        k.prove("metadata/instance-set", bi.identical(k.it, a.value, k.member(D.copies, i)))


# ------------------------------------------------------------------ metadata root record

def child(k, cls, name):
    """a child under contract: its reference before and after it is written"""
    leaf = cls.split(".")[-1]
    slots = {"mapped": True, "realm": None, "reference": None}
    if not getattr(k, "unsaved_parts", False):
        slots = {"mapped": k.bool(f"{name}_is_loaded"), "realm": k.str(f"{name}_realm"),
                 "reference": k.new("mapper.reference.Reference", leaf, k.str(f"{name}_before"))}
    o = Obj(k.cls(cls), slots)
    if leaf in ("FileTree", "DatasetTree"):
        node = Obj(k.cls("mtreenode.MTreeNode"), slots)
        o = Obj(k.cls(cls), {"mtree": node})
    return o


def root_record(k):
    """MetadataRootRecord: identifier, version and the references of both parts"""
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    R = "mapper.reference.Reference"
    ident = k.opt(k.uuid("identifier"), "no_identifier")
    version = k.opt(k.str("version"), "no_version")
    dlm = child(k, "metadata.Metadata", "dlm") if k.bool("has_dlm") else None
    ft = child(k, "filetree.FileTree", "ft") if k.bool("has_ft") else None
    h1, h2 = k.ext.fresh_hash("dlm"), k.ext.fresh_hash("ft")
    ft_empty = ft is not None and k.bool("file_tree_is_empty")

    def write(o):
        if o is dlm:
            r = k.new(R, "Metadata", h1)
            k.ctx.put(o, "reference", r)
        else:
            r = k.new(R, "MTreeNode", "*None*" if ft_empty else h2)
            k.ctx.put(k.ctx.get(o, "mtree"), "reference", r)
        return r
    E.write = write
    dest = k.realm()
    o = k.new("metadatarootrecord.MetadataRootRecord", ident, version, dlm, ft)
    a = save(k, E, o, dest)
    k.prove("record/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("record/class", k.eq(k.get(a.value, "class_name"), "MetadataRootRecord"))
    o2, b = load(k, E, "metadatarootrecord.MetadataRootRecord", dest, a.value, None, None, None, None)
    k.prove("record/load-succeeds", b.ok, why(k, b))
    if not b.ok:
        return
    k.prove("record/identifier", k.eq(k.get(o2, "dataset_identifier"), ident))
    k.prove("record/version", k.eq(k.get(o2, "dataset_version"), version))
    k.prove("record/mapped", k.get(o2, "mapped"))
    d2, f2 = k.get(o2, "dataset_level_metadata"), k.get(o2, "_file_tree")
    if dlm is None:
        k.prove("record/no-dataset-level-metadata", d2 is None)
    else:
        k.prove("record/dataset-level-metadata", d2 is not None and d2.cls.name == "Metadata")
        k.prove("record/dataset-level-metadata-reference", d2 is not None and bi.conj([
            k.eq(k.get(k.get(d2, "reference"), "location"), h1),
            k.eq(k.get(k.get(d2, "reference"), "class_name"), "Metadata"), k.eq(k.get(d2, "realm"), dest)]))
    if ft is None or ft_empty:
        k.prove("record/no-file-tree", f2 is None)
    else:
        k.prove("record/file-tree", f2 is not None and f2.cls.name == "FileTree")
        if f2 is not None:
            m = k.get(f2, "mtree")
            k.prove("record/file-tree-reference", bi.conj([
                k.eq(k.get(k.get(m, "reference"), "location"), h2), k.eq(k.get(m, "realm"), dest),
                bi.truthy(k.it, k.get(m, "mapped") is False)]))
            k.prove("record/file-tree-class", k.eq(k.get(k.get(m, "reference"), "class_name"), "MTreeNode"))


# ------------------------------------------------------------------ version lists

def _version_list(k, kind, elem):
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    D = VersionLists(k, elem, split=True)
    E.write = D.write_child
    dest = k.realm()
    o = k.new(f"versionlist.{kind}")
    k.ctx.put(o, "version_set", D.outer)
    a = save(k, E, o, dest)
    k.prove("list/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("list/class", k.eq(k.get(a.value, "class_name"), kind))
    o2, b = load(k, E, f"versionlist.{kind}", dest, a.value)
    k.prove("list/load-succeeds", b.ok, why(k, b))
    if b.ok:
        k.split(lambda: same_entry(k, D, o2, dest))
        k.split(lambda: two_entries(k, D, o2))


def two_entries(k, D, o2):
    v, w, p, q = k.str("v"), k.str("w"), k.path("p"), k.path("q")
    k.assume(z3.Or(v != w, p.term != q.term))

    def parts(v, p):
        r = k.call(k.it.getattr(o2, "_get_version_record"), v, p)
        x = k.get(r, "element")
        m = k.get(x, "mtree") if D.main.nodes is not None else x
        return [x, m]
    no_sharing(k, "list", lambda: parts(v, p), lambda: parts(w, q))


def same_entry(k, D, o2, dest):
    v, p = k.str("version"), k.path("prefix")
    same_entry_at(k, D, o2, dest, v, p, p)


def same_entry_at(k, D, o2, dest, v, p, q):
    """the entry for (v, q) is the entry that D has for (v, p)"""
    hit = D.entry(v, p)
    a = k.attempt(lambda: k.call(k.it.getattr(o2, "_get_version_record"), v, q))
    if hit is None:
        k.cover("list/unknown")
        k.prove("list/no-other-entry", not a.ok and k.is_exc(a.exc, "KeyError"))
        return
    e, t = hit
    k.cover("list/known")
    k.prove("list/entry-is-found", a.ok, why(k, a))
    if not a.ok:
        return
    r = a.value
    k.prove("list/time-stamp", k.eq(k.get(r, "time_stamp"), e.time(*t)))
    k.prove("list/prefix-path", k.eq(k.get(r, "prefix_path"), q))
    x = k.get(r, "element")
    k.prove("list/element-class", x.cls.name == D.element_class.split(".")[-1])
    m = k.get(x, "mtree") if D.main.nodes is not None else x
    k.prove("list/element-reference", k.eq(k.get(k.get(m, "reference"), "location"), e.loc(*t)))
    k.prove("list/element-realm", k.eq(k.get(m, "realm"), dest))


def version_list(k):
    """VersionList: the same entries with the same time stamps, paths and element references"""
    _version_list(k, "VersionList", "metadatarootrecord.MetadataRootRecord")


def tree_version_list(k):
    """TreeVersionList: likewise with dataset trees"""
    _version_list(k, "TreeVersionList", "datasettree.DatasetTree")


# ------------------------------------------------------------------ UUID set

def uuid_set(k):
    """UUIDSet: the same identifiers with the references of their version lists"""
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    D = UuidSets(k)
    E.write = D.write_child
    dest = k.realm()
    o = k.new("uuidset.UUIDSet")
    k.ctx.put(o, "uuid_set", D.dict)
    a = save(k, E, o, dest)
    k.prove("uuids/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    k.prove("uuids/class", k.eq(k.get(a.value, "class_name"), "UUIDSet"))
    o2, b = load(k, E, "uuidset.UUIDSet", dest, a.value, None)
    k.prove("uuids/load-succeeds", b.ok, why(k, b))
    if b.ok:
        k.split(lambda: same_list(k, D, o2, dest))
        k.split(lambda: two_lists(k, o2))


def two_lists(k, o2):
    u, v = k.uuid("u"), k.uuid("v")
    k.assume(u.term != v.term)
    d = k.get(o2, "uuid_set")
    no_sharing(k, "uuids", lambda: just(k, k.it.getitem(d, u)), lambda: just(k, k.it.getitem(d, v)))


def same_list(k, D, o2, dest):
    u = k.uuid()
    has, i = D.index(u)
    d = k.get(o2, "uuid_set")
    a = k.attempt(lambda: k.it.getitem(d, u))
    if not k.branch(has):
        k.cover("uuids/unknown")
        k.prove("uuids/no-other-identifier", not a.ok and k.is_exc(a.exc, "KeyError"))
        return
    k.cover("uuids/known")
    k.prove("uuids/identifier-is-found", a.ok, why(k, a))
    if a.ok:
        v = a.value
        k.prove("uuids/element-class", v.cls.name == "VersionList")
        k.prove("uuids/element-reference", bi.conj([
            k.eq(k.get(k.get(v, "reference"), "location"), D.loc(i)),
            k.eq(k.get(k.get(v, "reference"), "class_name"), "VersionList")]))
        k.prove("uuids/element-realm", k.eq(k.get(v, "realm"), dest))


# ------------------------------------------------------------------ parts without content, trees of the API

def none_reference(k):
    """an object that is loaded from a none-reference is mapped and has no content"""
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    dest = k.realm()
    c = k.choose(2)
    cls = ["MTreeNode", "Metadata"][c]
    args = (k.cls("metadata.Metadata"),) if c == 0 else ()
    r = k.call(k.it.getattr(k.cls("mapper.reference.Reference"), "get_none_reference"), cls)
    k.prove("none/is-none", k.m(r, "is_none_reference"))
    o, a = load(k, E, {"MTreeNode": "mtreenode.MTreeNode", "Metadata": "metadata.Metadata"}[cls], dest, r, *args)
    k.prove("none/load-succeeds", a.ok, why(k, a))
    k.prove("none/mapped", k.truth(k.get(o, "mapped")))
    x = k.name()
    if c == 0:
        k.prove("none/no-child", k.m(o, "get_child", x) is None)
    else:
        b = k.attempt(lambda: k.m(o, "extractor_runs_for_extractor", x))
        k.prove("none/no-extractor", not b.ok and k.is_exc(b.exc, "KeyError"))


def proxy(k):
    """FileTree and DatasetTree: writing returns the reference of their tree, and
    an object that is created from this reference loads that tree"""
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    dest = k.realm()
    cls = ["filetree.FileTree", "datasettree.DatasetTree"][k.choose(2)]
    leaf = k.cls("metadata.Metadata" if cls.startswith("file") else "metadatarootrecord.MetadataRootRecord")
    mtree = k.new("mtreenode.MTreeNode", leaf)
    h = k.ext.fresh_hash("tree")
    ref = k.new("mapper.reference.Reference", "MTreeNode", "*None*" if k.bool("empty") else h)
    asked = []

    def write(o):
        asked.append(o)
        k.ctx.put(o, "reference", ref)
        return ref
    E.write = write
    o = k.new(cls, mtree)
    E.body.append(o)
    k.prove("proxy/tree", k.get(o, "mtree") is mtree)
    a = k.attempt(lambda: k.m(o, "write_out", dest))
    k.prove("proxy/write-succeeds", a.ok, why(k, a))
    k.prove("proxy/writes-its-tree", asked == [mtree])
    k.prove("proxy/reference", a.ok and k.eq(k.get(a.value, "location"), k.get(ref, "location")))
    k.prove("proxy/reference-class", a.ok and k.eq(k.get(a.value, "class_name"), "MTreeNode"))
    if not a.ok:
        return
    o2 = k.new(cls, realm=dest, reference=a.value)
    m2 = k.get(o2, "mtree")
    k.prove("proxy/not-loaded", k.get(m2, "mapped") is False)
    k.prove("proxy/loaded-reference", k.eq(k.get(k.get(m2, "reference"), "location"), k.get(ref, "location")))
    k.prove("proxy/loaded-realm", k.eq(k.get(m2, "realm"), dest))
    k.prove("proxy/leaf-class", k.get(m2, "leaf_class") is leaf)
    E.body.append(o2)
    E.calls.clear()
    b = k.attempt(lambda: k.m(o2, "read_in"))
    k.prove("proxy/read", b.ok and b.value is o2 and [(m, x) for m, x, _ in E.calls] == [("read_in", m2)], why(k, b))


def metadata_cached(k):
    """Metadata that is written while its realm is cached can be loaded as soon as the cache is flushed"""
    Git(k)
    k.unsaved_parts = k.bool("parts_were_never_saved")
    E = Writer(k)
    D = InstanceSets(k)
    dest = k.realm()
    M = k.cls("mapper.gitmapper.metadatamapper.MetadataGitMapper")
    a = k.attempt(lambda: k.call(k.it.getattr(M, "cache_realm"), dest))
    k.prove("cached/cache", a.ok, why(k, a))
    o = k.new("metadata.Metadata")
    k.ctx.put(o, "instance_sets", D.dict)
    a = save(k, E, o, dest)
    k.prove("cached/write-succeeds", a.ok, why(k, a))
    if not a.ok:
        return
    b = k.attempt(lambda: k.call(k.it.getattr(M, "flush_realm"), dest))
    k.prove("cached/flush-succeeds", b.ok, why(k, b))
    if not b.ok:
        return
    o2, b = load(k, E, "metadata.Metadata", dest, a.value)
    k.prove("cached/load-succeeds", b.ok, why(k, b))
    if b.ok:
        k.split(lambda: same_set(k, D, o2))


HARNESSES = [uuid_set, tree_node, tree_node_text, text, metadata, metadata_cached, root_record, version_list,
             tree_version_list, none_reference, proxy]
